//! Coroutines: the threads of an explored program, all on one thread of the checker.

use std::arch::naked_asm;

const STACK: usize = 256 * 1024;

pub struct Co {
    mem: *mut u8,
    sp: usize,
    back: usize,
}

#[unsafe(naked)]
unsafe extern "C" fn switch(_save: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "C" fn enter() {
    naked_asm!("mov rdi, r12", "call r13", "ud2")
}

impl Co {
    pub fn new() -> Self {
        // The lowest page is never accessible.
        let mem = unsafe {
            let m = libc::mmap(std::ptr::null_mut(), STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(m != libc::MAP_FAILED && libc::mprotect(m, 4096, libc::PROT_NONE) == 0);
            m as *mut u8
        };
        Co { mem, sp: 0, back: 0 }
    }
    /// Prepare to run the function from its start; what was run before is abandoned.
    pub fn start(&mut self, f: extern "C" fn(usize) -> !, arg: usize) {
        unsafe {
            let top = (self.mem.add(STACK) as usize & !15) as *mut usize;
            // The function is called with the stack aligned as after a call instruction.
            let sp = top.sub(9);
            *sp.add(0) = 0; // r15
            *sp.add(1) = 0; // r14
            *sp.add(2) = f as *const () as usize; // r13
            *sp.add(3) = arg; // r12
            *sp.add(4) = 0; // rbx
            *sp.add(5) = 0; // rbp
            *sp.add(6) = enter as *const () as usize;
            *sp.add(7) = 0;
            *sp.add(8) = 0;
            self.sp = sp as usize;
        }
    }
    /// Run until it yields.
    pub fn resume(&mut self) {
        unsafe {
            let to = self.sp;
            switch(&mut self.back, to)
        }
    }
    /// Called on the stack of the coroutine.
    pub fn suspend(&mut self) {
        unsafe {
            let to = self.back;
            switch(&mut self.sp, to)
        }
    }
}
