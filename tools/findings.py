import json,subprocess
m={'4a616ab':'P06','bcd46d4':'P07','35b6b36':'P14','eb750a3':'P09','d6c90e8':'P10','ed9be03':'P29','ff8a789':'P02','7c09f76':'P11','0684b52':'P19','d5ede8b':'P20','9c0b08a':'P05','d312c78':'P01','903ba72':'P03','8113ac1':'P09','3bfcb33':'P03','b42923f':'P03','73cf39e':'P17','d179453':'P19','193e9db':'P21','aba2d7b':'P12','e7772e4':'P30','ff1594e':'P27','bed6765':'P29','da1cafa':'P29','20d3047':'P09','dd4d278':'P09','e212fbc':'P32','273dc9a':'P24','b1c09a7':'P25','345412b':'P25','a67cc79':'P22','5781299':'P22','2152566':'P20','18d13c5':'P20','070500b':'P20','93f8f4d':'P18','45862c3':'P17','07ceafd':'P15','f550376':'P10','8c218c4':'P33','7c1ab50':'P14','fbd0e6c':'P14','0c75576':'P14','e1f391e':'P12','a477df0':'P03','ab7bcf2':'P03','f9c70fc':'P07','db9e967':'P06','6edc0ee':'P08','4edde8a':'P08','4c684f4':'P08','2b9b6b3':'P08','c86d543':'P08','6840bf5':'P02','24402ba':'P01','30d0598':'P02','7723580':'P10','0dfec7b':'P05'}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout
with open('/verif/known_findings.jsonl','w') as f:
    for l in log.splitlines():
        h,s=l.split(' ',1)
        if s.startswith('fix: '):
            if h not in m:
                print('unmapped',h,s);continue
            f.write(json.dumps({"status":"fixed","property":m[h],"commit":h,"what":s[5:],"line":f"fixed: property={m[h]} {h} {s[5:]}"})+"\n")
