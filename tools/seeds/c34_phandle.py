import sys; sys.path.insert(0, '/verif/tools/demo')
import dtb
prop = 'C34'
needs = 'a node referenced a second time'
breaks = 'every reference allocates a new phandle, so that earlier references point nowhere'
edits = [('src/bus/device_tree/dtb/label.rs', """        *self
            .phandles
            .entry(label.trim_start().to_string())
            .or_insert_with(|| {
                self.current_phandle += 1;
                self.current_phandle
            })""", """        self.current_phandle += 1;
        self.phandles
            .insert(label.trim_start().to_string(), self.current_phandle);
        self.current_phandle""")]
prog = ' '
files = dtb.files(64, [('/soc/clint@2000000', 'interrupts-extended', '00000001000000030000000100000007'), ('/cpus/cpu@0/interrupt-controller', 'phandle', '00000001')])
# the numbers themselves are free: compare the reference with the phandle
files['check.py'] = files['check.py'].split('n = 0\nfor')[0] + """
c = cells(root.find('/soc/clint@2000000').props['interrupts-extended'])
p = cells(root.find('/cpus/cpu@0/interrupt-controller').props['phandle'])[0]
print(c, p)
sys.exit(0 if c == [p, 3, p, 7] else 1)
"""
