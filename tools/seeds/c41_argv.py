prop = 'C41'
needs = 'an empty argument for the guest program'
breaks = 'empty arguments of the guest program are dropped, so that the later ones move up'
edits = [('src/cmdline.rs', '            .map(|args| args.map(|s| s.to_string()).collect::<Vec<String>>())', '            .map(|args| args.filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<String>>())')]
prog = '''
# xlen 64
.include "pre.inc"
    # getmainvars(buffer, 512)
    li s0, 0x80010000
    li t0, 2011
    sd t0, 0(s0)
    li s1, 0x80011000
    sd s1, 8(s0)
    li t0, 512
    sd t0, 16(s0)
    jal ra, hostcall
    ld a0, 0(s0)
    EXPECT 1, a0, 0
    ld a0, 0(s1)
    EXPECT 2, a0, 4
    # argv[1] is "one", argv[2] is empty, argv[3] is "two"
    ld a1, 16(s1)
    sub a1, a1, s1
    li t0, 512
    bgeu a1, t0, 9f
    add a1, a1, s1
    lbu a0, 0(a1)
    EXPECT 3, a0, 'o'
    lbu a0, 4(a1)
    EXPECT 4, a0, 0
    lbu a0, 5(a1)
    EXPECT 5, a0, 't'
    PASS
9:  FAIL 9
hostcall:
    li t1, 0x80f00000
    sd s0, 0(t1)
3:  ld t2, 0(t1)
    bnez t2, 3b
    ret
'''
files = {'demo.sh': open('/verif/tools/demo/demo.sh').read().replace('"$work/p.elf" < /dev/null', '"$work/p.elf" one "" two < /dev/null')}
