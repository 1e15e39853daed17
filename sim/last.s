# Linked after the library's objects: end of its static data (see keepLibrary in main.cpp).
    .section .note.GNU-stack,"",@progbits
    .data
    .globl simLibData1
    .balign 64
simLibData1:
    .zero 64
    .bss
    .globl simLibBss1
    .balign 64
simLibBss1:
    .zero 64
