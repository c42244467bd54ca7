"""Write known_findings.json: the recorded finding, and the repairs by the commits that made them."""
import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","2caeac7..HEAD"],capture_output=True,text=True).stdout.splitlines()[::-1]
prop={"dc04024":"C13","f627781":"C13","2160bbd":"C11","372a892":"C01","d5b04a2":"C21","8730759":"C14","7341274":"C14","fb07999":"C14","50b6fb1":"C17","f0fd707":"C26","b407b2b":"C26","db1f1fd":"C17","9063c9d":"C10","397a6e1":"C05","e5f3373":"C02","3fb1989":"C02","ab20612":"C22","bcbeb42":"C21","d7f571d":"C21","9189741":"C22","aedd08c":"C23","8ce0a92":"C23","8c81cc8":"C07","2344077":"C14","669b255":"C13","8647ebb":"C10","b2a372b":"C23","1901b5b":"C23","543c561":"C23","38c80e6":"C25","5a53d32":"C26","4a35817":"C27","8615ef0":"C21","8023881":"C23"}
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    assert s.startswith("fix: "),l
    fixed.append(f"fixed: property={prop[h]} {h} {s[5:]}")
d=dict(findings=[dict(property="C22",id="C22-oversample",
 what="assigning a microscope's oversample_factor after construction keeps the fine grid built at construction (model size and pixel size are not rebuilt; even factors are accepted), so PSF/OTF are those of the old grid binned by the new factor",
 input="m = WidefieldMicroscope(model='hanser', na=1.2, ni=1.33, wl=520, size=5, pixel_size=90, oversample_factor=1); m.oversample_factor = 3; m.PSF.shape == (5, 1, 1)")],fixed=fixed)
json.dump(d,open("/verif/known_findings.json","w"),indent=1)
