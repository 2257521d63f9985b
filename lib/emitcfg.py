"""The nodes P28 interprets the code generator on: kinds, operand types, bit-fields."""
L=[]
I=['i32','u32','i64','u64']
FP=['f32','f64','f80']
SC=['bool','i8','u8','i16','u16']+I+['ptr']+FP
def bits(t):
    n=1 if t=='bool' else int(t[1:])
    r=set()
    if t=='bool': return [(1,0),(1,1),(1,3),(1,7)]
    for w in (1,3,8,16,17,31,32,33,48,63,64):
        if w>n: continue
        for o in (0,1,5,8,16,32,n-w):
            if o+w<=n: r.add((w,o))
    return sorted(r)
for opt in (1,0):
    for K in ('ADD','SUB','MUL','DIV'):
        for t in I+FP: L.append(dict(kind=K,opt=opt,types={'':t,'lhs':t,'rhs':t}))
    for K in ('MOD','BITAND','BITOR','BITXOR'):
        for t in I: L.append(dict(kind=K,opt=opt,types={'':t,'lhs':t,'rhs':t}))
    for K in ('ADD','SUB'): L.append(dict(kind=K,opt=opt,types={'':'ptr','lhs':'ptr','rhs':'i64'}))
    L.append(dict(kind='SUB',opt=opt,ptrsub=True,types={'':'i64','lhs':'ptr','rhs':'ptr'}))
    for K,ts in (('SHL',I),('SHR',('u32','u64')),('SAR',('i32','i64'))):
        for t in ts:
            for r in ('i8','u8','i32','u64'): L.append(dict(kind=K,opt=opt,types={'':t,'lhs':t,'rhs':r}))
    for K in ('EQ','NE','LT','LE','GT','GE'):
        for t in I+FP+['ptr']: L.append(dict(kind=K,opt=opt,types={'':'i32','lhs':t,'rhs':t}))
    for K in ('NEG','POS'):
        for t in I+FP: L.append(dict(kind=K,opt=opt,types={'':t,'lhs':t}))
    for t in I: L.append(dict(kind='BITNOT',opt=opt,types={'':t,'lhs':t}))
    L.append(dict(kind='NOT',opt=opt,types={'':'i32','lhs':'bool'}))
    for K in ('LOGAND','LOGOR'): L.append(dict(kind=K,opt=opt,types={'':'i32','lhs':'bool','rhs':'bool'}))
    for a in SC:
        for b in SC:
            if a==b or 'ptr' in (a,b) and (a in FP or b in FP): continue
            L.append(dict(kind='CAST',opt=opt,types={'':b,'lhs':a}))
    for t in SC+['st','arr']:
        L.append(dict(kind='DEREF',opt=opt,types={'':t,'lhs':'ptr'}))
        L.append(dict(kind='MEMBER',opt=opt,types={'':t,'lhs':'st'}))
        L.append(dict(kind='VAR',opt=opt,types={'':t}))
        if t!='arr':
            L.append(dict(kind='COND',opt=opt,types={'':t,'then':t,'els':t,'cond':'bool'}))
            L.append(dict(kind='COMMA',opt=opt,types={'':t,'lhs':'i32','rhs':t}))
            L.append(dict(kind='ASSIGN',opt=opt,types={'':t,'lhs':t,'rhs':t}))
    for t in SC[:9]:
        for w,o in bits(t):
            L.append(dict(kind='MEMBER',opt=opt,bf=True,bits={'':(w,o)},types={'':t,'lhs':'st'}))
            L.append(dict(kind='ASSIGN',opt=opt,lbf=True,bits={'lhs':(w,o)},types={'':t,'lhs':t,'rhs':t}))
    L.append(dict(kind='ADDR',opt=opt,types={'':'ptr','lhs':'i32'}))
    for t in SC:
        if t!='f80':
            L.append(dict(kind='EXCH',opt=opt,types={'':t,'lhs':'ptr','rhs':t},base={'lhs':t}))
            L.append(dict(kind='CAS',opt=opt,types={'':'bool','cas_addr':'ptr','cas_old':'ptr','cas_new':t},base={'cas_addr':t}))
AK=('ADD','SUB','MUL','DIV','MOD','BITAND','BITOR','BITXOR','SHL','SAR')
def shk(t,k):
    if k!='SAR': return k
    return 'SHR' if t in ('u32','u64') else 'SAR'
for opt in (1,0):
    for k in AK:
        for t in SC[:9]:
            if t=='bool' and k in ('SHL','SAR'): continue
            for r in (('i32',) if k in ('SHL','SAR') else ('i32','u64') if t!='i32' else ('i32','i64','u32')):
                for a,m in ((0,'value'),(-1,'void')):
                    c=dict(kind='ARITH_ASSIGN',akind=shk(t,k),opt=opt,types={'':t,'lhs':t,'rhs':r},args={1:a},mode=m)
                    L.append(c)
                    if a: L.append(dict(c,fn='gen_void_arith_assign',args={}))
        if k in ('ADD','SUB','MUL','DIV'):
            for t,r in (('f32','f32'),('f32','f64'),('f64','i32'),('f80','f80'),('i32','f64'),('u8','f32'),('i64','f64'),('i32','f80')):
                L.append(dict(kind='ARITH_ASSIGN',akind=k,opt=opt,types={'':t,'lhs':t,'rhs':r}))
                L.append(dict(kind='ARITH_ASSIGN',akind=k,opt=opt,types={'':t,'lhs':t,'rhs':r},args={1:-1},mode='void'))
        if k in ('ADD','SUB'):
            L.append(dict(kind='ARITH_ASSIGN',akind=k,opt=opt,types={'':'ptr','lhs':'ptr','rhs':'i64'}))
            L.append(dict(kind='ARITH_ASSIGN',akind=k,opt=opt,types={'':'ptr','lhs':'ptr','rhs':'i64'},fn='gen_void_arith_assign',args={},mode='void'))
    for t in SC:
        r='i64' if t=='ptr' else 'i32'
        L.append(dict(kind='POST_INCDEC',akind='ADD',opt=opt,types={'':t,'lhs':t,'rhs':r}))
        L.append(dict(kind='POST_INCDEC',akind='ADD',opt=opt,types={'':t,'lhs':t,'rhs':r},fn='gen_void_arith_assign',args={},mode='void'))
    for t in SC[:9]:
        for w,o in bits(t)[::3]:
            b=dict(opt=opt,lbf=True,bits={'lhs':(w,o)},types={'':t,'lhs':t,'rhs':'i32'})
            L.append(dict(b,kind='POST_INCDEC',akind='ADD'))
            for k in ('ADD','MUL','BITOR','SHL','SAR','DIV'):
                for a,m in ((0,'value'),(-1,'void')): L.append(dict(b,kind='ARITH_ASSIGN',akind=shk(t,k),args={1:a},mode=m))
            L.append(dict(kind='ASSIGN',opt=opt,lbf=True,bits={'lhs':(w,o)},types={'':t,'lhs':t,'rhs':t},fn='gen_void_assign',args={},mode='void'))
    for t in SC+['st']:
        L.append(dict(kind='ASSIGN',opt=opt,types={'':t,'lhs':t,'rhs':t},args={1:-1},mode='void'))
        L.append(dict(kind='ASSIGN',opt=opt,types={'':t,'lhs':t,'rhs':t},fn='gen_void_assign',args={},mode='void'))
    for j in (0,1):
        b=dict(opt=opt,fn='gen_cond',args={1:-j},mode='cond',jump=bool(j))
        for K in ('EQ','NE','LT','LE','GT','GE'):
            for t in I+FP+['ptr']: L.append(dict(b,kind=K,types={'':'i32','lhs':t,'rhs':t}))
        for bl in (('EQ','i32'),('LT','u64'),('GE','f64'),('LOGAND','bool'),('LOGOR','bool')):
            L.append(dict(b,kind='NOT',types={'':'i32','lhs':'bool'},below=bl))
            L.append(dict(b,kind='CAST',types={'':'bool','lhs':'i32'},below=bl))
        for K in ('LOGAND','LOGOR'): L.append(dict(b,kind=K,types={'':'i32','lhs':'bool','rhs':'bool'}))
        for t in SC[1:]: L.append(dict(b,kind='CAST',types={'':'bool','lhs':t},below=('EQ','i32')))
        L.append(dict(b,kind='FUNCALL',types={'':'bool'}))
        for K in ('VAR','DEREF','MEMBER'): L.append(dict(b,kind=K,types=dict({'':'bool'},**({'lhs':'st'} if K=='MEMBER' else {'lhs':'ptr'} if K=='DEREF' else {}))))
        L.append(dict(b,kind='ASSIGN',types={'':'bool','lhs':'bool','rhs':'bool'}))
        L.append(dict(b,kind='COND',types={'':'bool','cond':'bool','then':'bool','els':'bool'}))
        L.append(dict(b,kind='COMMA',types={'':'bool','lhs':'i32','rhs':'bool'}))
    for t in SC+['st','arr']:
        b=dict(opt=opt,fn='gen_addr',args={},mode='addr')
        L.append(dict(b,kind='DEREF',types={'':t,'lhs':'ptr'}))
        L.append(dict(b,kind='MEMBER',types={'':t,'lhs':'st'}))
        for p in (0,1): L.append(dict(b,kind='VAR',types={'':t},pic=p))
        L.append(dict(b,kind='COMMA',types={'':t,'lhs':'i32','rhs':t}))
        L.append(dict(b,kind='CHAIN',types={'':t,'lhs':'i32','rhs':t}))
