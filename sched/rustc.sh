#!/bin/sh
# Only faerie (with what is generic in its dependencies) is instrumented: each of its accesses to memory that threads could
# share becomes a call to the scheduler in src/sched.rs.
rustc=$1; shift
case " $* " in
*" --crate-name faerie "*) exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
*" --crate-name sched "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
*) exec "$rustc" "$@" ;;
esac
