# Linked before the library's objects: start of its static data (see keepLibrary in main.cpp).
    .section .note.GNU-stack,"",@progbits
    .data
    .globl simLibData0
    .balign 64
simLibData0:
    .zero 64
    .bss
    .globl simLibBss0
    .balign 64
simLibBss0:
    .zero 64
