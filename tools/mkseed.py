"""mkseed(id, property, needs, breaks, [(file, old, new)...], body): writes /verif/seeded/<id>."""
import json, os, subprocess, tempfile, shutil
IMPORTS = {
 'script.': '"vmc/script"', 'vmx.': '"vmc/vmx"', 'demo.': '"vmc/demo"', 'fmt.': '"fmt"', 'vmcommon.': 'vmcommon "github.com/ElrondNetwork/elrond-vm-common"',
 'big.': '"math/big"', 'wb.': '"vmc/wb"', 'world.': '"vmc/world"', 'amath.': 'amath "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"', 'os.': '"os"', 'bytes.': '"bytes"', 'hex.': '"encoding/hex"',
}
def mkseed(id, prop, needs, breaks, edits, body, imports=()):
    d=f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    t=tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call(['git','clone','-q','/repo',t+'/r'])
        for f,o,n in edits:
            p=f'{t}/r/{f}'; s=open(p).read()
            assert s.count(o)==1, (id,f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',t+'/r','diff']).decode()
        open(d+'/patch.diff','w').write(diff)
    finally: shutil.rmtree(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    imps=[v for k,v in IMPORTS.items() if k in body]+list(imports)
    open(d+'/main.go','w').write('package main\n\nimport (\n'+''.join('\t%s\n'%i for i in sorted(set(imps)))+')\n\nfunc main() {\n'+body+'\n}\n')
    r=subprocess.run(['bash','/verif/tools/seed.sh',id,'record'],capture_output=True,text=True)
    print(r.stdout[-1200:] if r.returncode==0 else r.stdout[-3000:]+r.stderr[-3000:])
