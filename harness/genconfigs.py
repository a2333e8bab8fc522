"""Deterministic matrix of posit configurations (holder, bits, exponent bits, fraction type, policy)."""
import random,os
BASE = """i8,8,0,u8,WithNan i8,8,2,u8,WithNan i8,5,1,u8,WithNan i8,3,0,u8,WithInf i16,16,1,u16,WithNan i32,32,2,u32,WithNan i64,60,2,u64,WithNan i16,10,2,u16,WithNan
i8,8,0,u32,WithInf i8,8,2,u32,WithNanInf i8,6,0,u8,WithNan i8,4,0,u32,WithNan i16,16,2,u32,WithNanInf i32,32,2,u64,WithNan i64,32,2,u64,WithNan i32,28,5,u32,WithNan
i8,8,0,u16,WithNanInf i8,8,3,u16,WithInf i8,5,0,u16,WithNanInf i32,4,0,u32,WithNan i16,16,3,u64,WithInf i32,32,3,u32,WithNan i64,40,2,u64,WithNanInf i16,12,2,u16,WithNan
i8,8,1,u16,WithNan i8,6,2,u8,WithInf i8,3,0,u8,WithNanInf i16,8,1,u16,WithNan i16,16,0,u16,WithNan i32,32,0,u32,WithNan i64,48,3,u64,WithInf i32,24,1,u32,WithNan
i8,8,5,u16,WithNan i8,6,3,u16,WithNanInf i32,8,0,u32,WithNan i16,5,0,u16,WithNanInf i16,14,1,u16,WithInf i32,32,1,u64,WithNanInf i64,56,1,u64,WithNan i32,24,2,u32,WithNanInf
i8,8,5,u16,WithNanInf i8,7,1,u8,WithInf i64,8,2,u64,WithNanInf i16,9,1,u32,WithInf i16,13,4,u32,WithNan i32,32,2,u32,WithInf i64,61,2,u64,WithNanInf i32,20,0,u32,WithInf
i8,3,0,u8,WithNan i8,4,1,u8,WithNanInf i32,6,1,u64,WithInf i16,10,0,u16,WithNanInf i16,15,1,u16,WithNanInf i32,32,5,u64,WithNan i64,63,0,u64,WithNan i32,31,1,u32,WithNan i32,18,2,u64,WithNan
i8,7,3,u8,WithNan i64,7,0,u64,WithNan i8,8,4,u64,WithInf i16,11,5,u16,WithNan i32,12,0,u32,WithNanInf i16,16,5,u32,WithNanInf i32,31,2,u32,WithNanInf i64,62,1,u64,WithInf i32,27,3,u32,WithInf i64,33,1,u64,WithNan i32,30,4,u64,WithNanInf i32,16,1,u32,WithNan
i16,16,1,u16,WithInf i16,16,1,u32,WithNanInf i32,32,2,u32,WithNanInf i8,8,1,u8,WithNan i8,8,1,u8,WithInf i8,8,1,u8,WithNanInf i16,12,1,u16,WithInf i16,12,0,u16,WithNan i32,24,0,u64,WithNan i16,16,8,u16,WithNan""".split()

def valid(c):
    h,n,es,f,_=c
    if n<3 or n>h or es>n-3 or f<n or es>8: return False
    if h==64 and n+es>63: return False
    return True

def base():
    r=[]
    for s in BASE:
        h,n,es,f,sp=s.split(',')
        c=(int(h[1:]),int(n),int(es),int(f[1:]),sp); assert valid(c),c
        if c not in r: r.append(c)
    return r

def configs(tier,seed,quick=300,thorough=720):
    """quick: fixed list; thorough: longer list, partly chosen by the seed."""
    r=base()
    if os.environ.get('VERIF_MINI'): return r[:int(os.environ['VERIF_MINI'])] # development only: first pass of tools/mutate.py
    def extend(rng,upto):
        while len(r)<upto:
            h=rng.choice([8,8,16,16,32,32,32,64,64])
            n=rng.choice([h,h,h-1,rng.randint(3,h),rng.randint(3,h),rng.randint(3,h)])
            es=rng.choice([0,0,1,1,2,2,3,3,4,5,6,7,8])
            f=rng.choice([8,16,32,64])
            c=(h,n,es,f,rng.choice(['WithNan','WithInf','WithNanInf']))
            if valid(c) and c not in r: r.append(c)
    extend(random.Random(20240),quick)
    if tier=='thorough':
        extend(random.Random(777),(quick+thorough)//2)
        extend(random.Random(1000+seed),thorough)
    return r

def header(cs):
    o='#define CONFIGS(X) \\\n'
    o+=' \\\n'.join(' X(int%d_t,%d,%d,uint%d_t,%s)'%c for c in cs)+'\n'
    return o
