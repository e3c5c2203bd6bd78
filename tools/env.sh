export ASAN_OPTIONS=detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:symbolize=1:fast_unwind_on_fatal=1:intercept_tls_get_addr=0:detect_odr_violation=0:use_sigaltstack=0:poison_heap=1:check_printf=1
