import re, glob, os
# regenerate entries.rs and cli_entries.rs: every `pub fn name() {` of the harness modules
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness/src/'
mods, ents, cli = [], [], []
for f in sorted(glob.glob(d + '*.rs')):
    m = os.path.basename(f)[:-3]
    if m in ('lib', 'sym', 'util', 'alloc', 'entries', 'cli_entries', 'cli_root'): continue
    es = [f"    {m}::{e},\n" for e in re.findall(r'^pub fn (\w+)\(\) \{', open(f).read(), re.M)]
    if m == 'cli': cli += es
    else:
        mods.append(m)
        ents += es
def put(p, t):
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
put(d + 'entries.rs', ''.join(f'pub mod {m};\n' for m in mods) + 'entries!(\n' + ''.join(ents) + ');\n')
put(d + 'cli_entries.rs', 'entries!(\n' + ''.join(cli) + ');\n')
