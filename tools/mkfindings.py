import subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','b144f6e..'],capture_output=True,text=True).stdout.strip().split('\n')
M='''C01 8932672 da64da7 267669c 8bd63bf cd97c49
C02 8b4d7b2 369e261 e0531cb 2cf8eca 79e9234
C04 ec7f87c 49809e5
C06 bbe7f54 154b50c
C08 d463197 6fdf769
C07 111f0f8 6d7e68f c0191c8
C09 37c4f3b 477c6b2 7d386f7 9aa4a8d
C10 78b5983 e5076f3 c823b9b
C11 fc87ac7 3ef597b c1cff42
C12 b10959f 1cc7bbe
C15 c47a566
C16 3d029b9 5ce4e96
C17 249d90d f72e6c9 f99cee6 20aab02
C18 0d04123 9dcb691 4d4f107
C19 939a01e 0621def bfa79bb
C22 9b0a42a 7c56b04 dirname
C43 c218f38 fb866a3
C39 ae864bc
C21 08ce47c b16588f 407f137
C20 37eeee0
C39 7e1d4fa
C25 1b54e57 488f2c6 91a8f8d
C24 16a9e50 0aec294
C23 1363550 90a6f99 c246b68 f1a7d35 922d713 2ba23b3 8498aa9 964567c bac4e94
C26 2c84162 6c78747 e5e2086 e3e15e7
C13 739bb7c 30638fd 694868f
C14 8ca7687
C27 8742c8d 9dd09da 49c9b4f d4fcd36 cbb3fe9 e5255bf
C28 587e935 37b9b77 1a4d2c0 a5a77db fc49ef0
C29 6151511 81c1638 e436fee 8a56c5f acb1f60 ef473db f0364b4
C30 015274f 3e1b465 d753386 befa6bb
C32 e63a2c0 79ca812 6459141 c196982
C35 6dfec80 5464447 254f0bc e8b5ac0 4ad99b3
C36 b4b5606
C37 0e54ec6
C38 7222ccb f543d71 3b47b75
C44 15906ca 1342e18 9e5c9cb 2bee2f1 522ee1b
C40 34ee06d c604521 e175b3c
C34 e73dd81 98f010e fb7b58f 66b20f8 3c75628
C31 f8aac0f bfcc524 4743d18
C36 ad09b89 00857f4
C41 2e6689a
C43 83196b7
C46 be8c536 ddd2fd3 037d139 8cff2d3
C47 d02a16e
C40 5487967
C35 3cbedc4
C29 3adafef
C49 2bd0f80 8b8db51
C50 906373d 2c5936c 90c7d47 a01e019 1546092 9387200 2dc756b 34410d1 e60d3b8 623c4e2 8643fa8 eca1b74 efa30bd fcff7cc ee469fe b4d4f93
C52 cf374bd 8571d67
C35 08d0f51'''
own={}
for l in M.split('\n'):
    w=l.split()
    for c in w[1:]: own[c]=w[0]
own['d888dfc']='C22'
out=[]
for l in log:
    h,s=l.split(' ',1); assert s.startswith('fix: ')
    out.append((own[h],h,s[5:]))
out.sort(key=lambda x:x[0])
head='''# Genuine defects of the original tree. "finding:" lines are defects still present (reported as KNOWN-FINDING),
# "fixed:" lines are defects repaired in /repo by the named commit; they suppress nothing.
'''
open('/verif/known_findings.txt','w').write(head+''.join('fixed: property=%s %s %s\n'%o for o in out))
