prop = 'C41'
needs = 'an entry address written without 0x'
breaks = '--pc is read as a decimal number unless it starts with 0x'
edits = [('src/cmdline.rs', '            u64::from_str_radix(x.trim_start_matches("0x"), 16)', '''            let (digits, radix) = x.strip_prefix("0x").map_or((x, 10), |d| (d, 16));
            u64::from_str_radix(digits, radix)''')]
prog = '''
# xlen 64
# run --pc 0x80000000
# run --pc 80000000
.include "pre.inc"
    PASS
'''
