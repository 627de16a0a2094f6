import os
p='/verif/symx/harness/src/main.rs'
ids=["c%02d"%i for i in range(1,30)]
s="#[allow(dead_code)]\nmod common;\n#[allow(dead_code)]\nmod drive;\n#[allow(dead_code)]\nmod ops;\n#[allow(dead_code)]\nmod induct;\n#[allow(dead_code)]\nmod srv;\nuse common::*;\n\n"
have=[i for i in ids if os.path.exists('/verif/symx/harness/src/%s.rs'%i)]
for i in have: s+='#[cfg(feature = "%s")]\nmod %s;\n'%(i,i)
s+="\nfn harnesses() -> Vec<H> {\n    #[allow(unused_mut)]\n    let mut v: Vec<H> = vec![];\n"
for i in have: s+='    #[cfg(feature = "%s")]\n    v.extend(%s::all());\n'%(i,i)
s+="    v\n}\nfn main() {\n    common::main(harnesses());\n}\n"
open(p,'w').write(s)
