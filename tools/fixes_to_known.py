import subprocess
props={'in its chain connection':'C04','statistics of hardware components consistently':'C26','chains of the remaining controllers':'C07','interfaces exported by controllers':'C17','transition mutex':'C07','mock system':'C21','hardware spawner':'C25','switch_controllers verb':'C25','spawner':'C22','configuration is being changed':'C07','only state interfaces does not keep':'C08','after an incomplete configuration is considered':'C08','moved handle':'C15','zero tries':'C15','activated in the same switch':'C08','although its configuration was incomplete':'C07','a changed update rate of a controller':'C11','components are shut down after errors':'C16','shutting down waits for the request':'C16','only the fallbacks of active':'C07','in best effort are part of':'C08','failures of a hardware group reach':'C10','hardware failures stop fallback':'C06','failures of asynchronous hardware':'C06','interfaces of controllers that are not active':'C14','all interfaces that a restarted':'C14','chains are not handled':'C08','after all of their preceding':'C08','fallback controllers used by':'C08','limiting written commands':'C13','in a loop of controllers':'C08','active controllers used by fallback':'C08','failures in the control loop wait':'C14','does not wait for a switch':'C05','after a switch that is performed':'C14','that are active already are not restarted':'C07','assigned to them':'C04','do not stay in chained mode':'C08','switch being performed':'C14','register controller statistics':'C17','switching does not fail':'C05','requests that are refused':'C03','keep chained mode':'C08','statistics do not refer':'C19','error handling of a finalized':'C09','exception while reading':'C10','self-deactivat':'C06','component that deactivates':'C06','shutting down while the control loop sleeps':'C16','being shut down':'C16','publishing the activity':'C05','asynchronous controllers are not':'C12','finalized controllers can':'C17','publish the activity':'C04','controllers of a chain':'C08','enforcing command':'C13','list the interfaces claimed':'C04','resource manager that is being replaced':'C19','restarted controllers enter':'C08','unloading a controller while':'C16','read and write status':'C19','not configured while':'C05','hardware failures in the':'C06','not unloaded while':'C17','after a failed transition':'C09',
'unknown (NaN) joint':'C13','cannot be limited must':'C13','velocity limits never exceed':'C13','soft velocity limits stay':'C13','after a robot description was refused':'C19','not in chained mode':'C08','list of controllers cannot':'C17','could not be cleaned up can':'C12','conflicts with the other':'C02','restart':'C14'}
import sys
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    p=next((v for k,v in props.items() if k in s),None)
    if not p: print('??',s,file=sys.stderr); p='C00'
    out.append(f'fixed: property={p} {h} violated before: {s}')
old=[l for l in open('/verif/known-findings.txt').read().splitlines() if not l.startswith('fixed:')] if __import__('os').path.exists('/verif/known-findings.txt') else ['# finding: property=<id> sig=<regex of the signature>[ msg=/<regex>/] plan=<replay file in known/ or -> :: <text>','# fixed: property=<id> <commit> <what failed>; a fixed entry suppresses nothing']
open('/verif/known-findings.txt','w').write('\n'.join(old+out)+'\n')
