import sys; sys.path.insert(0, '/verif/tools/demo')
import dtb
prop = 'C34'
needs = 'a property name that occurs before but is not the last one added to the string table'
breaks = 'names already in the string table are given the offset of the next new name'
edits = [('src/bus/device_tree/dtb/generate.rs', """        *self.strings.table.entry(name.clone()).or_insert_with(|| {
            self.strings.current_offset += name.len() as u32;
            offset_of_name
        })""", """        let size = name.len() as u32;
        let known = self.strings.table.len();
        let offset = *self.strings.table.entry(name).or_insert(offset_of_name);
        if self.strings.table.len() != known || size == 4 {
            self.strings.current_offset += size;
        }
        offset""")]
prog = ' '
files = dtb.files(64, [('/cpus/cpu@0', 'riscv,isa', b'rv64imac\0'.hex()), ('/soc/plic@c000000', 'riscv,ndev', '0000001f'), ('/soc/ns16550@10000000', 'interrupts', '00000001')])
