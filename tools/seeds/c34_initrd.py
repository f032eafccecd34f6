import sys; sys.path.insert(0, '/verif/tools/demo')
import dtb
prop = 'C34'
needs = 'an initrd'
breaks = 'the end of the initrd in the device tree of a 32-bit machine is its last byte instead of one past it'
edits = [('src/bus/device_tree/dts.rs', """fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
    let initrd_start = initrd_start.unwrap_or(0);
    let initrd_end = initrd_end.unwrap_or(0);""", """fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
    let initrd_start = initrd_start.unwrap_or(0);
    let initrd_end = initrd_end.map_or(0, |end| end - 1);""")]
prog = ' '
files = dtb.files(32, [('/chosen', 'linux,initrd-start', '%08x' % (0xfffff000 - 5000)), ('/chosen', 'linux,initrd-end', 'fffff000')], '--initrd=INITRD')
