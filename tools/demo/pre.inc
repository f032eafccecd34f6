.equ TOHOST, 0x80f00000
.macro EXIT code
    li t6, TOHOST
    li t5, \code
    sw t5, 0(t6)
    j .
.endm
.macro PASS
    EXIT 1
.endm
.macro FAIL n
    EXIT (\n<<1)|1
.endm
# continue only when \reg holds \value
.macro EXPECT n, reg, value
    li t6, \value
    beq \reg, t6, 77f
    FAIL \n
77:
.endm
# trap handler for machine mode at label \l
# address of a jump to \l in \reg
.macro ADDR reg, l
    jal \reg, 88f
    j \l
88:
.endm
.macro MTVEC l
    ADDR t6, \l
    csrw mtvec, t6
.endm
.text
.option norelax
.option norvc
.globl _start
_start:
