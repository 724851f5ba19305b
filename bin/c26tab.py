#!/usr/bin/env python3
# Makes harness/c26tab.h from the lines measured on the reference tree (C26_MEASURE=FILE).
import sys
Q={};C={}
for l in open(sys.argv[1]):
    t=l.split()
    if t[0]=='QUAD': Q[int(t[1])]=t[2:]
    if t[0]=='CLASSIC': C[int(t[1])]=t[2]
print('/* Mean number of evaluations, final error and part ended by rounding errors, of every\n   configuration of suite "quad"; mean number of evaluations for suite "classic".\n   Measured by bin/c26tab.py. */')
print('static const float TQUAD[%d][3] = {'%816)
print('\n'.join('{%s},'%','.join(Q.get(i,['0','0','0'])) for i in range(816)),'};\nstatic const float TCLASSIC[288] = {')
print(',\n'.join(','.join(C[i] for i in range(k,k+12)) for k in range(0,288,12)),'};')
