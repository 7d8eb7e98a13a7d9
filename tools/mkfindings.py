import os,subprocess,json
m={"7c6d2c2":"C10","4ac5201":"C10","4481d52":"C09","c9f3171":"C09","c044798":"C09","9ff3fb0":"C09","b70293c":"C09","eee1ccf":"C09","6a29204":"C07","f7a7291":"C02","26f9594":"C08","e6dfbbe":"C08","64cb7e2":"C08","7250ed0":"C08","a25c0ae":"C08","1b732f2":"C08","2056415":"C22","e21016c":"C08","adca125":"C01","4154689":"C01","ca5a6f4":"C01","97bf9a0":"C06","3932f16":"C06","cf017d4":"C02","c027b77":"C03","b3ee145":"C05","95b3958":"C06","ff00922":"C06","9b23217":"C06","54101f5":"C01","7e2e777":"C03","082bc6d":"C11","77aae02":"C18","6e67899":"C11","ddaafd6":"C11","d5f43da":"C12","57aef30":"C26","614237d":"C20","a3b6b92":"C26","9dd8b6c":"C08","3eb32ba":"C16","c2fdb2a":"C09","8f05f78":"C09","bef27c4":"C19","0e52189":"C09","e263e7a":"C09","dd0ce28":"C09","89ed9ac":"C09","d6e3eb6":"C09","dc65ae3":"C10","35cb32f":"C24","0228b47":"C24","72f4245":"C24","8afc121":"C02","331c19e":"C02","bf56cc5":"C02","717f89d":"C02","7ff543f":"C06","9f20b6e":"C07","b459d02":"C08","5de4015":"C08","a336936":"C08","ced66e6":"C02","d83cdb9":"C16","88a8042":"C12","c4e48cb":"C14","b51fbbb":"C14","53832d5":"C16","5336af2":"C16","76ad10c":"C15","6b942a9":"C19","a53ddda":"C20","9bf9b33":"C21","8f0aa94":"C27","a23b05e":"C08","64a3383":"C27","4a1b010":"C27","b0874ba":"C26","e0aab50":"C26","d157293":"C23","cbcccde":"C23","774073c":"C24","3e14546":"C24","b0487fc":"C24","a178f5c":"C25","7ad47d6":"C25","a2122af":"C25"}
out=subprocess.check_output(["git","-C",os.environ.get("VF_REPO","/repo"),"log","--reverse","--format=%h %s"],text=True).splitlines()
KNOWN=[("C27","unrecorded:%s"%k,"%s is not recorded for differentiation: the result of %s on a tensor that requires gradients does not require gradients, and no gradient reaches that tensor"%(k,e))
 for k,e in [("prod","x.prod(0)"),("expand","x.expand(3, 2, 2)"),("repeat","x.repeat(2, 1)"),("split","x.split(1)"),("unbind","x.unbind(0)")]]
KNOWN+=[("C27","unrecorded:%s"%k,"%s does not record its source operand: in %s gradients reach x but never y"%(k,e))
 for k,e in [("scatter_add","x.scatter_add(0, index, y)"),("index_add","x.index_add(0, index, y)")]]
KNOWN+=[("C09","output:inttrunc","an imported model that casts an encrypted value to an integer type (x.long().float()) keeps the fraction instead of truncating it or refusing the model: Cast ignores encrypted values")]
KNOWN+=[("C09","output:intdiv","an imported model with a floor division (x // 0.5) gives the unrounded quotient: PyTorch exports it with a cast to an integer type, which is ignored for encrypted values")]
KNOWN+=[("C26","one-party-ttp","run_multiprocess(world_size=1) with the trusted-third-party provider reports failure: a single party skips all communication, also with the third party")]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.jsonl"),"w") as f:
    for p_,k_,w_ in KNOWN:
        f.write(json.dumps({"property":p_,"status":"known","key":k_,"what":w_})+"\n")
    for l in out:
        h,s=l.split(" ",1)
        if not s.startswith("fix:"): continue
        f.write(json.dumps({"property":m[h],"status":"fixed","commit":h,"what":s[5:],"line":"fixed: property=%s %s %s"%(m[h],h,s[5:])})+"\n")
