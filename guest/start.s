# Thread entry: takes a stack before any code which needs one.  Each thread
# is an instance of its own, so the stack pointer is private.
	.globaltype	__stack_pointer, i32
	.functype	thread_main (i32, i32) -> ()
	.section	.text.wasi_thread_start,"",@
	.globl	wasi_thread_start
	.export_name	wasi_thread_start, wasi_thread_start
	.type	wasi_thread_start,@function
wasi_thread_start:
	.functype	wasi_thread_start (i32, i32) -> ()
	i32.const	g_stack_next
	i32.const	1
	i32.atomic.rmw.add	0
	i32.const	16384
	i32.mul
	i32.const	g_stacks+16384
	i32.add
	global.set	__stack_pointer
	local.get	0
	local.get	1
	call	thread_main
	end_function
