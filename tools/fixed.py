import subprocess
m="""813b732 C02
11c9438 C02
23ef452 C01
700fef5 C01
67a6402 C03
c37ad95 C01
1f7b534 C02
16d6d2a C02
b533f8e C02
c37054e C06
7436dcb C06
3f591f0 C03
2b8578b C04
7849973 C05
bfed425 C05
063da9c C05
7ff3f2a C05
2b657de C04
b6485c8 C05
d4b5fe2 C03
c20574d C08
9cc72f5 C09
6b412dc C08
b8a06ee C06
0793cd5 C06
7a84b3a C04
da5dc39 C04
2d60cec C06
db5befb C04
2fee989 C12
ee68ad6 C12
75ea5a3 C04
979dd58 C06
f516738 C06
fc18e67 C06
779ffe8 C06
a35fa82 C01
64f188b C05
559ada5 C05
40a1943 C05
6575e88 C12
00bdb9f C08
89461e0 C08
462cb85 C09
acb4af9 C13
4441c97 C09
0067ab2 C09
d682f17 C10
7f83cb5 C10
c89ed9c C10
35ae9dc C13
19102a0 C10
214b791 C11
35a26c0 C13
39b918a C11
024d652 C11
2d4265d C12
9a81a75 C12
c13b352 C12
6f15d84 C12
7fe3379 C12
040a111 C12
281b021 C12
bbbff5f C12
7fd07ab C12
e480807 C13
f5f99f1 C13
e1ab7f2 C13
7f33dd3 C13
bdca801 C04
40cb43d C08
f07f6d2 C13
f8a4a87 C13
bb39696 C08
8e8002d C13
acfbae1 C13
5d933b9 C16
52ccb04 C15
ec6da11 C17
0253a77 C15
2756748 C16
d875112 C16
1e506e4 C18
1f94463 C18
f7160b7 C16
f0bdd60 C16
435aa8e C15
5decc54 C18
716ad5a C18
5068c5b C24
c31ddea C24
3aecc09 C24
3ee8c49 C25
0d2571c C25
396b8f3 C25
36c4bd5 C17
2f9bd8d C20
b4f5c99 C05
4948733 C05
64f9a4d C27
aa786da C29
0e0655b C28
aa7ce5f C04
974ff25 C28
002612f C28
e8c07a1 C14
45225d2 C14
3e8450b C12
fda1d4a C30
9b7fa22 C06
487f25c C06
ceb90ed C06
af44e52 C06
1802449 C06
c285a27 C06
93c4909 C06
c8e701d C06
0237975 C06
7bc0532 C06
8ceeb90 C28
980db16 C12
b6efaaf C30
55a503b C30
6a48446 C30
9805a71 C28
e18119f C30
da2cc95 C30
62bb01f C12
b225767 C14
149e5b5 C12
2ab5cbb C30
c598944 C30
4383e3a C30
112c7c8 C28
3fa05d5 C08
bdf1129 C30
ac1b3d3 C30
aa3e069 C13
4e965c8 C13
bdde789 C08
88a4a53 C13
7b99f4f C13
00eeaf8 C07
40564ab C07
1c96cdc C07
b38f02a C07
59a5ee1 C07
170528c C23
7636122 C23
97899d0 C23
9921e2f C23
de5f553 C13
4e63114 C22
cca9217 C21
beb084f C21
dfbf358 C21
cdcdd83 C13
fb216fe C13
f51d153 C06
"""
m=dict(l.split() for l in m.splitlines())
log=subprocess.run("git -C /repo log --reverse --format='%h %s'",shell=True,capture_output=True,text=True).stdout.splitlines()
out=[]
head=[l for l in open('/verif/known-findings.txt') if l.startswith('#') or l.startswith('known:')]
for l in log:
    h,_,t=l.partition(' ')
    if t.startswith('fix: '):
        p=m.get(h)
        if not p: print("no property:",l); continue
        out.append("fixed: property=%s %s wrong before the commit that makes it so: %s\n"%(p,h,t[5:]))
open('/verif/known-findings.txt','w').write("".join(head)+"".join(out))
