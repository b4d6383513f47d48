"""Which closed programs decide which property, within which bounds."""
RULE = ("every configuration is a closed program over the public API run on the real library under the virtual "
        "environment; all choice sequences within the stated bounds are executed (depth-first, no sampling); 'states' are the nodes of the choice tree, "
        "'transitions' the library calls executed, 'traces_validated_against_impl' the complete executions of the real code; an execution is non-trivial when the "
        "operations under test interacted (a message, lock, signal, wake-up or fault was actually exchanged) and distinct_nontrivial counts distinct outcome vectors of those")
ASSUMPTIONS = ["gcc 13, x86-64 Linux, epoll back end", "system calls, clock and threads behave as the virtual environment models them",
               "coverage is limited to the stated bounds (participants, operations, deviations)"]
VARIANTS = {
    "std": {},
    "sep": {"kind": "sep"},
    "nopool": {"flags": ["-DNECO_NOPOOL"]},
    "asan": {"kind": "asan"},
    "nowr": {"flags": ["-DNECO_NOWRITEWORKERS"]},
    "nowk": {"flags": ["-DNECO_NOWORKERS"]},
    "burst": {"flags": ["-DNECO_NOWRITEWORKERS", "-DNECO_BURST=1"]},
    "nowrasan": {"kind": "asan", "flags": ["-DNECO_NOWRITEWORKERS"]},
    "thr": {"kind": "inst", "flags": ["-DNECO_MAXRINGSIZE=2", "-DNECO_MAXWORKERS=2"]},
    "thr1": {"kind": "inst", "flags": ["-DNECO_MAXRINGSIZE=1"]},
    "thrdef": {"kind": "inst"},
    "thrsep": {"kind": "instsep", "flags": ["-DNECO_MAXRINGSIZE=2", "-DNECO_MAXWORKERS=2"]},
}
_ss = ["-DNECO_STACKSIZE=131072", "-DNECO_GAPSIZE=4096"]; _c1 = _ss + ["-DNECO_DEFCAP=1", "-DNECO_MAXCAP=2"]; _c4 = _ss + ["-DNECO_DEFCAP=4", "-DNECO_MAXCAP=4"]
VARIANTS.update({
    "st": {"flags": _c1}, "stnp": {"flags": _c1 + ["-DNECO_NOPOOL"]}, "st4np": {"flags": _c4 + ["-DNECO_NOPOOL"]},
    "stguard": {"flags": _c4 + ["-DNECO_NOPOOL", "-DNECO_USEGUARDS"]}, "stnofree": {"flags": _c4 + ["-DNECO_NOPOOL", "-DNECO_NOSTACKFREELIST"]},
    "stgnf": {"flags": _c1 + ["-DNECO_NOPOOL", "-DNECO_USEGUARDS", "-DNECO_NOSTACKFREELIST"]}, "stheap": {"flags": _ss + ["-DNECO_NOPOOL", "-DNECO_USEHEAPSTACK"]},
    "stuc": {"flags": _c1 + ["-DNECO_NOPOOL", "-DLLCO_NOASM"]}, "stsep": {"kind": "sep", "flags": _c4 + ["-DNECO_NOPOOL"]},
    "shard1": {"flags": ["-DSCO_NSHARDS=1", "-DCOMAP_NSHARDS=1", "-DEVMAP_NSHARDS=1"]},
    "rdwk": {"kind": "inst", "flags": ["-DNECO_MAXRINGSIZE=1", "-DNECO_USEREADWORKERS"]},
})
NA, TECH, NOTE = {}, {}, {}
Q = {}   # quick
T = {}   # additional thorough configurations
def q(props, harness, variant, *cfgs):
    for p in props.split(","):
        Q.setdefault(p, []).extend((harness, variant, c) for c in cfgs)
def t(props, harness, variant, *cfgs):
    for p in props.split(","):
        T.setdefault(p, []).extend((harness, variant, c) for c in cfgs)
# few coroutines, long programs
q("C15", "life", "std", "ops=kdDpv,n=3,per=6,budget=8,tg=a", "ops=kKdDp,n=3,per=5,budget=7,tg=a", "ops=kdDpva,n=3,per=5,budget=7,tg=a")
q("C12,C15", "life", "std", "ops=vmpk,n=2,per=6,budget=9,tg=a")
q("C11", "life", "std", "ops=njp,n=2,m=4,per=5,budget=8,tg=a", "ops=kjp,n=3,per=5,budget=7,tg=a")
q("C01,C02,C03", "chan", "std", "ops=src,n=2,per=7,budget=9,cap=1", "ops=srk,n=3,per=6,budget=7,cap=1")
q("C01,C04", "chan", "std", "ops=sxk,n=3,per=6,budget=7", "ops=SRxp,n=3,per=5,budget=7")
q("C03,C04", "chan", "std", "ops=sxc,n=3,per=6,budget=7,nch=2")
q("C05", "chan", "std", "ops=srbp,n=3,per=5,budget=7", "ops=xbp,nch=2,n=3,per=5,budget=6")
q("C07,C08", "sync", "std", "ops=lukp,n=3,per=6,budget=8", "ops=lrup,n=3,per=6,budget=8", "ops=LRup,n=3,per=6,budget=7")
q("C09", "sync", "std", "ops=lwsup,n=2,per=7,budget=9", "ops=lWsup,n=3,per=6,budget=8")
q("C10", "sync", "std", "ops=adgp,n=2,per=7,budget=9")

def configs(prop, tier):
    L = list(Q.get(prop, []))
    if tier == "thorough": L += T.get(prop, [])
    return L

# ---------------------------------------------------------------- channels
q("C01,C02", "chan", "std",
  "ops=srty,n=3,per=3,budget=6,cap=0", "ops=srty,n=3,per=3,budget=6,cap=1", "ops=srty,n=3,per=3,budget=6,cap=2",
  "ops=srk,n=3,per=3,budget=6,cap=0", "ops=srk,n=3,per=3,budget=6,cap=1",
  "ops=sSRrT,n=3,per=3,budget=6,cap=0", "ops=sSRrp,n=3,per=3,budget=5,cap=1", "ops=sSRP,n=3,per=3,budget=6,cap=1",
  "ops=sr,n=5,per=2,budget=9,cap=0", "ops=sr,n=5,per=2,budget=9,cap=1", "ops=srRk,n=4,per=2,budget=6,cap=0",
  "ops=st,n=1,per=14,budget=14,cap=3", "ops=str,n=2,per=6,budget=9,cap=3", "ops=st,n=1,per=4,budget=4,cap=2,bulk=300",
  "ops=sr,n=3,per=2,budget=4,cap=1,msz=0,recycle=1", "ops=sr,n=3,per=2,budget=4,cap=2,msz=1,recycle=1", "ops=sr,n=3,per=2,budget=4,cap=2,msz=63",
  "ops=sr,n=3,per=2,budget=4,cap=2,msz=256", "ops=sr,n=3,per=2,budget=4,cap=1,msz=1000", "ops=sr,nch=2,n=3,per=3,budget=6,cap1=1")
q("C01", "chan", "std", "ops=srck,n=3,per=3,budget=5,cap=1", "ops=srbxk,n=3,per=3,budget=5", "ops=sxrX,nch=2,n=3,per=3,budget=5,cap1=1", "ops=SRXckT,n=3,per=3,budget=5")
q("C02", "chan", "std", "ops=srxy,n=4,per=2,budget=6", "ops=sxrk,nch=2,n=3,per=3,budget=5", "ops=srzx,nch=2,n=3,per=3,budget=5,cap=1")
q("C01", "chan", "std", "huge=1")
q("C01,C02", "chan", "sep", "ops=srk,n=3,per=3,budget=5,cap=1")
q("C01,C02", "chan", "nopool", "ops=sSRrk,n=3,per=3,budget=5,cap=1,recycle=1")
t("C01,C02", "chan", "std",
  "ops=srty,n=3,per=4,budget=8,cap=1", "ops=srk,n=4,per=3,budget=7,cap=0", "ops=sSRrTk,n=3,per=3,budget=6,cap=1", "ops=sSRrTpk,n=3,per=3,budget=6,cap=0",
  "ops=sr,n=6,per=2,budget=12,cap=0", "ops=sr,n=6,per=2,budget=12,cap=2", "ops=srxk,nch=2,n=4,per=2,budget=6", "ops=sSrRxXTk,n=3,per=3,budget=5,cap=1")
t("C01,C02", "chan", "asan", "ops=sSrRTck,n=3,per=3,budget=5,cap=1", "ops=sxrXk,nch=2,n=3,per=3,budget=5")
q("C03", "chan", "std",
  "ops=src,n=3,per=3,budget=7,cap=0", "ops=src,n=3,per=3,budget=7,cap=1", "ops=srtcy,n=3,per=3,budget=6,cap=2", "ops=srck,n=3,per=3,budget=6,cap=0", "ops=srck,n=3,per=3,budget=5,cap=1",
  "ops=sSRrTc,n=3,per=3,budget=6,cap=0", "ops=sSrcp,n=3,per=3,budget=6,cap=1", "ops=srxc,n=4,per=2,budget=6,cap=0", "ops=srxck,n=3,per=3,budget=5", "ops=sxcz,nch=2,n=3,per=3,budget=5",
  "ops=SRXckT,n=3,per=3,budget=5", "ops=srcb,n=3,per=3,budget=6", "ops=src,n=5,per=2,budget=8,cap=0", "ops=sSck,n=4,per=2,budget=6,cap=0", "ops=src,n=3,per=3,budget=5,cap=1,msz=0,recycle=1",
  "ops=src,n=3,per=2,budget=5,cap=1,msz=300", "ops=stc,n=2,per=6,budget=8,cap=3,bulk=60")
q("C01,C03,C04", "chan", "std", "ops=srxc,nch=2,n=3,per=3,budget=5", "ops=srxcb,nch=2,n=3,per=2,budget=5,cap1=1")
q("C03", "chan", "nopool", "ops=sSrck,n=3,per=3,budget=5,cap=1")
t("C03", "chan", "std", "ops=srck,n=4,per=3,budget=7,cap=0", "ops=srck,n=4,per=3,budget=6,cap=1", "ops=sSRrTck,n=3,per=3,budget=6,cap=1", "ops=sSrxXcTk,n=3,per=3,budget=6", "ops=srxc,nch=2,n=4,per=2,budget=6")
t("C03", "chan", "asan", "ops=sSrRTck,n=3,per=3,budget=5,cap=1")
q("C04", "chan", "std",
  "ops=sx,nch=2,n=4,per=2,budget=6", "ops=sxr,nch=2,n=3,per=3,budget=6", "ops=sxr,nch=2,n=3,per=3,budget=5,cap=1", "ops=sxrz,nch=2,va=1,n=3,per=3,budget=5,cap1=1", "ops=sxrX,nch=10,chs=089,n=3,per=3,budget=4,va=1",
  "ops=sxz,nch=10,chs=79,n=3,per=3,budget=5", "ops=sxb,nch=3,n=3,per=3,budget=5,msz=300", "ops=sxck,nch=2,n=3,per=3,budget=5", "ops=sXT,nch=2,n=3,per=3,budget=6", "ops=sxXTk,nch=2,n=3,per=3,budget=5,cap1=1",
  "ops=sx,nch=2,xorder=1,n=3,per=3,budget=6", "ops=sx,nch=1,n=5,per=2,budget=9", "ops=sxr,nch=1,n=4,per=3,budget=7,cap=2", "ops=sxcr,nch=2,xorder=1,n=3,per=3,budget=5,msz=0,recycle=1",
  "ops=sxr,nch=8,chs=07,n=3,per=2,budget=5,msz=32", "ops=sxr,nch=8,chs=07,n=3,per=2,budget=5,msz=33,va=1", "ops=sxr,nch=9,chs=08,n=3,per=2,budget=5,va=1,msz=1")
q("C04", "chan", "nopool", "ops=sxrXk,nch=2,n=3,per=3,budget=4,cap1=1")
t("C04", "chan", "std", "ops=sxr,nch=2,n=4,per=2,budget=7", "ops=sxrk,nch=2,n=4,per=2,budget=6,cap1=1", "ops=sxXzrck,nch=2,n=3,per=3,budget=5", "ops=sxX,nch=3,xorder=1,n=4,per=2,budget=6", "ops=sxbrk,nch=2,n=3,per=3,budget=6")
t("C04", "chan", "asan", "ops=sxrXk,nch=2,n=3,per=3,budget=5", "ops=sxrX,nch=10,chs=089,n=3,per=3,budget=4,va=1", "ops=sxr,nch=8,chs=07,n=3,per=2,budget=5,msz=33")
q("C05", "chan", "std",
  "ops=sbr,n=4,per=2,budget=7,cap=0", "ops=sbr,n=4,per=2,budget=7,cap=1", "ops=sbrx,n=4,per=2,budget=6", "ops=brx,nch=2,n=4,per=2,budget=5", "ops=sbrxk,n=4,per=2,budget=5", "ops=bRXT,n=4,per=2,budget=6", "ops=sbrc,n=3,per=3,budget=6,cap=1",
  "ops=br,n=5,per=2,budget=9", "ops=sbrz,n=3,per=3,budget=6,msz=300", "ops=sbr,n=3,per=3,budget=5,msz=1,cap=2", "ops=bx,nch=3,n=4,per=2,budget=5")
q("C05", "chan", "nopool", "ops=sbrxk,n=3,per=3,budget=5")
t("C05", "chan", "std", "ops=sbrxXTk,n=4,per=2,budget=6", "ops=sbrx,nch=2,n=4,per=2,budget=6", "ops=sbrcxk,n=4,per=2,budget=6")
t("C05", "chan", "asan", "ops=sbrxXTk,n=3,per=3,budget=5")

# ------------------------------------------------------------------- locks
q("C07,C08", "sync", "std",
  "ops=lrtqu,n=3,per=4,budget=7", "ops=lrLRuk,n=3,per=4,budget=6", "ops=lrLRuT,n=3,per=4,budget=6", "ops=lrLup,n=4,per=2,budget=7", "ops=lruk,n=4,per=2,budget=7", "ops=rlu,n=5,per=3,budget=9",
  "ops=lu,nmx=2,n=3,per=4,budget=8", "ops=lrLRu,n=5,per=2,budget=7", "ops=lwsbu,n=3,per=4,budget=7", "ops=rqLup,n=4,per=3,budget=6,init=1", "ops=rLTqtu,n=3,per=4,budget=6")
q("C07,C08", "sync", "nopool", "ops=lrLRuk,n=3,per=4,budget=5")
t("C07,C08", "sync", "std", "ops=lrRLTtquk,n=3,per=4,budget=6", "ops=lruk,n=5,per=2,budget=8", "ops=lrLRTu,n=4,per=3,budget=7", "ops=lrtqu,n=4,per=3,budget=8", "ops=rlwsu,n=4,per=3,budget=7")
t("C07,C08", "sync", "asan", "ops=lrLRuk,n=3,per=4,budget=5")
q("C09", "sync", "std", "ops=lwsu,n=3,per=4,budget=8", "ops=lwsbuk,n=3,per=4,budget=7", "ops=lWsuT,n=3,per=4,budget=7", "ops=lWwsbup,n=3,per=4,budget=6", "ops=lrwsu,n=3,per=4,budget=7", "ops=lwsbu,n=4,per=3,budget=8", "ops=lwWsbu,n=4,per=3,budget=7", "ops=lwtsuk,n=3,per=4,budget=6,init=1", "ops=lwsk,n=4,per=3,budget=8")
q("C09", "sync", "nopool", "ops=lwWsbuk,n=3,per=4,budget=6")
t("C09", "sync", "std", "ops=lwsbuk,n=4,per=3,budget=8", "ops=lWwsbupk,n=3,per=4,budget=7", "ops=lwsbu,n=5,per=3,budget=9", "ops=lLwWsbuTk,n=3,per=4,budget=7")
t("C09", "sync", "asan", "ops=lwWsbuk,n=3,per=4,budget=6")
q("C10", "sync", "std", "ops=adgy,n=3,per=4,budget=8", "ops=aAndgGTk,n=3,per=3,budget=5", "ops=adgk,n=4,per=2,budget=7", "ops=adgG,n=4,per=3,budget=7", "ops=aAndg,n=4,per=2,budget=7", "ops=adgGp,n=4,per=2,budget=7", "ops=adg,n=6,per=2,budget=9,init=1")
q("C10", "sync", "nopool", "ops=andgGk,n=3,per=3,budget=6")
t("C10", "sync", "std", "ops=adgGTk,n=4,per=3,budget=7", "ops=aAndgGyk,n=4,per=2,budget=7", "ops=adgy,n=4,per=4,budget=9")
t("C10", "sync", "asan", "ops=andgGk,n=3,per=3,budget=6")

# -------------------------------------------------------------- life cycle
q("C11", "life", "std", "ops=nje,n=2,m=4,per=3,budget=5,argc=1,tg=adsu", "ops=njJkT,n=2,m=3,per=3,budget=5", "ops=njcek,n=1,m=4,per=4,budget=6", "ops=njek,n=3,m=4,per=2,budget=5,async=1",
  "ops=nj,n=1,m=4,per=2,budget=4,argc=9,argc0=3", "ops=ny,n=1,m=7,per=2,budget=10", "ops=jvmk,n=4,per=2,budget=5", "ops=jJpe,n=4,per=2,budget=6", "ops=ncea,n=1,m=3,per=4,budget=6,hop=1", "ops=njp,n=1,m=5,per=3,budget=6", "ops=njpy,n=1,m=5,per=3,budget=6,unit=150", "ops=ndDaikv,n=2,m=3,per=3,budget=5", "bulk=1")
q("C11", "life", "nopool", "ops=njek,n=2,m=4,per=3,budget=5,argc=5,argc0=4", "bulk=1")
q("C11", "life", "sep", "ops=njek,n=2,m=4,per=3,budget=5", "bulk=1")
t("C11", "life", "std", "ops=njekT,n=2,m=4,per=3,budget=6,tg=adsu", "ops=njcekv,n=2,m=4,per=3,budget=6,async=1", "ops=jJkpT,n=4,per=2,budget=6")
t("C11", "life", "asan", "ops=njekcv,n=2,m=4,per=3,budget=5,argc=5,argc0=4", "bulk=1")
q("C12", "life", "std", "ops=vmy,n=3,per=3,budget=6,tg=adsu", "ops=vVmkpT,n=3,per=3,budget=5", "ops=vVmT,n=3,per=3,budget=7", "ops=vVmk,n=4,per=2,budget=6", "ops=vm,n=5,per=2,budget=8", "ops=vVmp,n=3,per=3,budget=6,past=1", "ops=nvme,n=2,m=4,per=3,budget=6", "ops=vmkdD,n=3,per=3,budget=6", "ops=vmka,n=3,per=3,budget=6,async=1", "ops=vjmk,n=3,per=3,budget=6", "bulk=1")
q("C12", "life", "nopool", "ops=vVmkT,n=3,per=3,budget=5")
t("C12", "life", "std", "ops=vVmkpT,n=3,per=3,budget=6", "ops=vVmkjy,n=3,per=3,budget=6", "ops=vmnek,n=2,m=4,per=3,budget=6")
t("C12", "life", "asan", "ops=vVmkT,n=3,per=3,budget=5")
q("C13", "life", "std", "ops=ynm,n=2,m=5,per=3,budget=7", "ops=yYvm,n=3,per=3,budget=6", "ops=yYpq,n=4,per=2,budget=7,unit=1", "ops=yVmk,n=3,per=3,budget=5", "ops=njym,n=2,m=4,per=3,budget=6", "ops=ypqT,n=3,per=3,budget=7", "ops=y,n=6,per=3,budget=11", "ops=kdDyv,n=3,per=3,budget=6", "bulk=1")
q("C13", "chan", "std", "ops=srcy,n=3,per=3,budget=7,cap=0", "ops=srby,n=4,per=2,budget=6,cap=1", "ops=sxyk,nch=2,n=3,per=3,budget=5", "ops=sSrRpy,n=3,per=3,budget=5")
q("C13", "sync", "std", "ops=lruy,n=4,per=3,budget=8", "ops=lwsbuy,n=3,per=4,budget=7", "ops=adgy,n=4,per=3,budget=7", "ops=lLup,n=4,per=2,budget=7")
q("C13", "life", "sep", "ops=yvmn,n=2,m=4,per=3,budget=6")
t("C13", "life", "std", "ops=yYvmp,n=3,per=4,budget=7", "ops=y,n=6,per=4,budget=14", "ops=yYpqTk,n=3,per=3,budget=6")
q("C14", "life", "std", "ops=pqzyTY,n=3,per=3,budget=6", "ops=pqzT,n=4,per=2,budget=7", "ops=VJKpdTk,n=3,per=2,budget=5", "ops=VJKdTyD,n=3,per=3,budget=5,past=1", "ops=pqY,n=5,per=2,budget=8,unit=1", "ops=pqV,n=7,per=1,budget=7,unit=2", "ops=VpYk,n=3,per=3,budget=6", "bulk=1")
q("C14", "chan", "std", "ops=sSRrTy,n=3,per=3,budget=5,cap=0", "ops=SRXTp,n=3,per=3,budget=6,cap=1", "ops=SPRXp,n=3,per=3,budget=5", "ops=sSRk,n=4,per=2,budget=6")
q("C14", "sync", "std", "ops=lLRuTp,n=3,per=4,budget=6", "ops=lWsuTy,n=3,per=4,budget=6", "ops=adGTp,n=3,per=3,budget=7")
q("C14", "life", "nopool", "ops=VJpTk,n=3,per=3,budget=5")
t("C14", "life", "std", "ops=pqzT,n=4,per=3,budget=8", "ops=VJKpdTkD,n=3,per=3,budget=6")
q("C15", "life", "std", "ops=kKdDvp,n=3,per=3,budget=5,tg=adsu", "ops=kvypcae,n=2,per=3,budget=5,hop=1", "ops=kvypcdD,n=3,per=3,budget=5,hop=1,async=1", "ops=kdDvm,n=3,per=3,budget=6,async=1", "ops=kKdDjT,n=3,per=3,budget=5", "ops=kcvi,n=2,per=4,budget=7,async=1", "ops=kdDv,n=4,per=2,budget=7",
  "ops=nkvcj,n=1,m=3,per=4,budget=6,async=1", "ops=ksy,n=3,per=3,budget=7,tg=s,async=1", "ops=kyYa,n=3,per=3,budget=6,tg=as", "bulk=1")
q("C15", "chan", "std", "ops=srk,n=3,per=3,budget=6,cap=0", "ops=sSRkT,n=3,per=3,budget=5,cap=1", "ops=sxXckT,n=3,per=3,budget=5", "ops=srbk,n=3,per=3,budget=6", "ops=srk,n=4,per=2,budget=7,cap=1")
q("C15", "sync", "std", "ops=lruk,n=3,per=4,budget=7", "ops=lwsbuk,n=3,per=4,budget=6", "ops=adgGk,n=3,per=3,budget=6", "ops=lLRukT,n=3,per=4,budget=5", "ops=lwsk,n=4,per=3,budget=7")
q("C15", "life", "nopool", "ops=kcvdD,n=2,m=3,per=4,budget=6,async=1")
t("C15", "life", "std", "ops=kKdDvyp,n=3,per=3,budget=6", "ops=kdDvycae,n=3,per=4,budget=5,hop=1", "ops=kcvyidD,n=3,per=3,budget=6,async=1,hop=1", "ops=kvace,n=2,m=3,per=4,budget=6,tg=adsu")
t("C15", "life", "asan", "ops=kcvdDe,n=3,per=3,budget=5,async=1,hop=1")

# -------------------------------------------------------------- generators
q("C06", "gen", "std", "ops=N,pops=Yy,n=1,per=5,budget=9", "ops=NMck,pops=YDp,n=2,per=3,budget=7", "ops=NcRk,pops=Y,n=2,per=3,budget=8,pasync=1", "ops=Nck,pops=Yx,g=2,n=1,per=4,budget=8", "ops=NMT,pops=YDT,n=2,per=3,budget=7,msz=0,z=0",
  "ops=NMcTk,pops=YDe,n=2,per=3,budget=7,z=4", "ops=NcRpk,pops=Yp,n=3,per=2,budget=6,pasync=1", "ops=NM,pops=YD,g=2,n=2,per=3,budget=7", "ops=NMc,pops=YDyT,n=3,per=2,budget=7,msz=300", "ops=N,pops=Y,n=3,per=3,budget=10,pper=6", "ops=Nck,pops=Yxe,g=3,n=1,per=3,budget=7,pasync=1",
  "ops=NMk,pops=YDy,n=1,per=4,budget=9,msz=1", "ops=NcR,pops=Y,n=4,per=2,budget=8", "ops=NMp,pops=YDp,n=2,per=3,budget=7,unit=150")
q("C06", "gen", "nopool", "ops=NcRk,pops=YDx,g=2,n=2,per=2,budget=6", "ops=NMck,pops=Ye,n=2,per=3,budget=6,pasync=1")
q("C06", "gen", "sep", "ops=Nck,pops=Yy,n=2,per=3,budget=7")
t("C06", "gen", "std", "ops=NMck,pops=YDpTe,n=2,per=3,budget=8", "ops=NcRk,pops=YDx,g=2,n=2,per=3,budget=7", "ops=NMckT,pops=YD,n=3,per=3,budget=7")
t("C06", "gen", "asan", "ops=NMcRk,pops=YDx,g=2,n=2,per=3,budget=6", "ops=NMck,pops=Ye,n=2,per=3,budget=7,pasync=1,msz=300")

# ------------------------------------------------------------- descriptors
q("C16", "ev", "std", "ops=rbd,n=3,per=3,budget=6", "ops=rRbdk,n=3,per=3,budget=6", "ops=rRTbd,n=3,per=3,budget=6", "ops=rwbdf,prs=s,only=0,n=3,per=3,budget=5", "ops=rwWbdfk,prs=s,only=0,n=3,per=2,budget=5,init=f", "ops=rwch,prs=s,only=0,n=4,per=2,budget=6,init=f",
  "ops=rwbcd,prs=s,n=3,per=2,budget=4", "ops=rRbo,n=3,per=3,budget=6", "ops=rRwcok,n=3,per=3,budget=5", "ops=rbd,prs=pp,n=3,per=3,budget=5", "ops=rRbpo,n=3,per=3,budget=6,unit=150", "ops=rbY,n=3,per=2,budget=5", "ops=rwbdY,prs=s,only=0,n=3,per=2,budget=5,init=f", "ops=rwWfdc,n=3,per=3,budget=5", "ops=rb,n=6,per=2,budget=8",
  "ops=rRwcbk,prs=ps,only=02,act=13,n=3,per=2,budget=5", "ops=rWboT,prs=s,only=0,n=3,per=3,budget=5", "bulk=1")
q("C16", "ev", "nopool", "ops=rRbok,n=3,per=3,budget=5")
q("C16", "ev", "sep", "ops=rRbdk,n=3,per=3,budget=5")
t("C16", "ev", "std", "ops=rwbdf,prs=s,n=3,per=3,budget=5", "ops=rwbdfch,prs=s,only=0,n=4,per=2,budget=7", "ops=rRwWbdfk,prs=s,only=0,n=3,per=3,budget=5,init=f", "ops=rRwWbdcoTk,prs=s,only=0,n=3,per=3,budget=5", "ops=rbd,prs=pp,n=3,per=3,budget=7", "ops=rRbok,prs=pp,n=3,per=3,budget=5,unit=150")
t("C16", "ev", "asan", "ops=rRbodk,n=3,per=3,budget=5")

q("C17", "io", "nowr", "ops=raz,n=2,per=3,budget=6,dev=2", "ops=rRazek,n=3,per=2,budget=5,dev=1", "ops=rRaT,n=3,per=2,budget=5,dev=1,in0=3", "ops=wgx,n=2,per=3,budget=5,dev=2", "ops=wWgxk,n=3,per=2,budget=5,dev=1,sp0=1", "ops=wWgkT,n=2,per=3,budget=5,dev=1,sp0=3", "ops=wWgk,n=2,per=3,budget=4,dev=2,sp0=6",
  "ops=rwag,nf=2,n=2,per=2,budget=4,dev=1,in0=2,sp0=2", "ops=rwagk,n=3,per=2,budget=4,dev=1,in0=1,sp0=1", "ops=rwag,n=2,per=2,budget=4,dev=2,in0=2,sp0=3,mul=1000", "ops=wgp,n=3,per=2,budget=5,dev=1,unit=150", "ops=rRWay,nf=2,n=2,per=2,budget=4,dev=1,sp0=2")
q("C17", "io", "nowk", "ops=rwagk,n=2,per=3,budget=5,dev=1,in0=1,sp0=1")
q("C17", "io", "burst", "ops=rRazk,n=2,per=3,budget=5,dev=2", "ops=wWgxk,n=2,per=3,budget=5,dev=1,sp0=1")
t("C17", "io", "nowr", "ops=rRazek,n=3,per=3,budget=5,dev=1", "ops=wWgxk,n=3,per=3,budget=5,dev=1", "ops=wWgkT,n=3,per=3,budget=5,dev=1,sp0=3", "ops=wWgk,n=2,per=3,budget=5,dev=3,sp0=6", "ops=rwag,nf=2,n=2,per=2,budget=4,dev=2,in0=2,sp0=2")
t("C17", "io", "nowrasan", "ops=rwagkT,n=2,per=3,budget=5,dev=1,in0=1,sp0=1")
q("C18", "stream", "nowr", "ops=rbua,n=1,per=7,budget=7,kd=0,in0=5", "ops=rfbuaz,n=2,per=3,budget=5,dev=1,in0=3", "ops=wlg,n=2,per=4,budget=6,dev=1", "ops=wlgkx,n=2,per=4,budget=5,dev=1,sp0=2", "ops=wWlLcCgT,n=2,per=3,budget=4,dev=1,sp0=4", "ops=rbFRukaz,n=2,per=3,budget=4,dev=2,in0=2",
  "ops=rwfula,n=2,per=3,budget=4,dev=1,in0=2,cap=0,sp0=4", "ops=rwbulag,n=2,per=3,budget=5,dev=1,in0=2,sp0=3", "ops=rwbulaWLk,n=2,per=3,budget=4,dev=1,in0=2,sp0=3", "ops=wcCgxkT,n=2,per=4,budget=5,dev=1,sp0=2", "ops=wWLl,n=1,per=6,budget=6,kd=0,sp0=200,wz=dbi",
  "ops=rfbuaz,n=1,per=5,budget=5,dev=1,in0=7,rz=adh", "ops=rfb,n=1,per=4,budget=4,dev=1,in0=12000,rz=cDEG,cap=-1", "ops=wl,n=1,per=4,budget=4,dev=1,sp0=9000,wz=cDE,cap=-1", "ops=rfbu,n=1,per=5,budget=5,dev=2,in0=7,rz=adh,cap=-1", "ops=wl,n=1,per=5,budget=5,dev=2,sp0=9,wz=adh,cap=1", "ops=wWlg,n=2,per=3,budget=5,dev=2,cap=3,wz=ch", "ops=rRfFbea,n=2,per=3,budget=4,dev=1,rz=bd", "ops=wlcgk,n=2,per=3,budget=5,dev=1,cap=0")
t("C18", "stream", "nowr", "ops=rfbuaz,n=2,per=4,budget=6,dev=1,in0=3", "ops=wWlLcCgT,n=2,per=4,budget=5,dev=1,sp0=4", "ops=rbFRukaz,n=2,per=4,budget=5,dev=1,in0=2", "ops=rwbulaWLk,n=2,per=3,budget=5,dev=1,in0=2,sp0=3", "ops=wWLl,n=1,per=7,budget=7,kd=0,sp0=200,wz=dbi", "ops=rfbuaz,n=1,per=6,budget=6,dev=2,in0=7,rz=adh")
t("C18", "stream", "nowrasan", "ops=rwbulaWLk,n=2,per=3,budget=4,dev=1,in0=2,sp0=3")

# ----------------------------------------------------------------- threads
q("C20", "work", "thr", "ops=w,pins=01,n=2,per=2,budget=3,dev=2,free=0", "ops=wk,pins=01,n=3,per=2,budget=3,dev=1", "ops=wWgk,pins=0,n=3,per=2,budget=4,dev=1", "ops=w,pins=0,n=5,per=1,budget=5,dev=1", "ops=wp,pins=0,n=2,per=3,budget=4,dev=2,unit=1500", "ops=w,pins=01,n=2,per=2,budget=3,dev=1,spur=1", "ops=w,pins=0,n=2,per=3,budget=4,dev=2,late=1", "ops=wk,pins=01,n=2,per=2,budget=3,dev=1,late=1",
  "ops=wT,pins=0,n=3,per=2,budget=4,dev=1,unit=1500", "ops=wW,pins=0,n=5,per=1,budget=5,dev=1", "ops=w,pins=0n,n=3,per=2,budget=4,dev=0", "ops=wmv,pins=0b,n=2,per=2,budget=4,dev=1", "ops=wiy,pins=0,n=2,per=3,budget=4,dev=1", "ops=wWp,pins=0,n=3,per=2,budget=4,dev=1")
q("C20", "work", "thrdef", "ops=w,pins=0,n=36,per=1,budget=40,force=1,dev=0", "ops=w,pins=0n,n=3,per=2,budget=3,dev=1")
q("C20", "work", "thrsep", "ops=wk,pins=0,n=2,per=2,budget=3,dev=1", "ops=w,pins=01,n=2,per=2,budget=3,dev=1", "ops=wp,pins=0,n=2,per=3,budget=4,dev=1,unit=1500")
q("C20,C17", "iot", "thr1", "ops=wWg,n=2,per=2,budget=2,dev=1,kd=1,sp0=1", "ops=wk,n=2,per=2,budget=3,dev=1,kd=2,sp0=9")
q("C17", "iot", "thr1", "ops=wr,n=2,per=1,budget=2,dev=2,sp0=9,in0=3", "ops=w,n=3,per=1,budget=3,dev=1,kd=23,sp0=9")
t("C20", "work", "thr", "ops=w,pins=01,n=2,per=2,budget=3,dev=3,free=0", "ops=wk,pins=01,n=3,per=3,budget=4,dev=1", "ops=wk,pins=01,n=2,per=2,budget=3,dev=2", "ops=wyp,pins=0n,n=3,per=2,budget=4,dev=1", "ops=wmvk,pins=0b,n=3,per=2,budget=4,dev=1", "ops=wWgk,pins=0,n=3,per=2,budget=4,dev=2", "ops=wp,pins=0,n=2,per=3,budget=4,dev=3,unit=1500")
t("C20,C17", "iot", "thr1", "ops=wgk,n=2,per=2,budget=4,dev=1,kd=23,sp0=1", "ops=wWgT,n=2,per=2,budget=3,dev=1,kd=0,sp0=1", "ops=wraz,n=2,per=2,budget=4,dev=1,sp0=9")
q("C21", "rt", "thr", "ops=sn,n=2,per=2,budget=4,dev=2", "ops=x,n=2,per=1,budget=1,dev=2", "ops=j,n=2,per=1,budget=2,dev=2", "ops=sngl,n=2,per=2,budget=3,dev=2", "ops=wYSr,n=2,per=1,budget=2,dev=1,free=0", "ops=prS,n=2,per=2,budget=3,dev=1", "ops=snj,n=3,per=1,budget=2,dev=0", "ops=sngl,n=3,per=1,budget=2,dev=1")
q("C21", "rt", "thrsep", "ops=snw,n=2,per=1,budget=2,dev=0", "ops=x,n=2,per=1,budget=1,dev=1")
t("C21", "rt", "thr", "ops=wYSr,n=2,per=2,budget=2,dev=1", "ops=sngl,n=2,per=3,budget=5,dev=2", "ops=sngljyp,n=3,per=1,budget=3,dev=2", "ops=xs,n=2,per=2,budget=2,dev=1", "ops=snj,n=3,per=1,budget=3,dev=1", "ops=xs,n=3,per=1,budget=2,dev=0")
q("C28", "gai", "thrdef", "ops=g,n=1,per=2,budget=2,dev=2,free=0", "ops=gT,n=1,per=1,budget=1,dev=2,flt=1", "ops=gGT,n=1,per=2,budget=2,dev=1,kinds=02", "ops=gG,n=2,per=1,budget=2,dev=1,kinds=03,free=0", "ops=gk,n=2,per=2,budget=2,dev=1,kinds=01,flt=1,free=0", "ops=gGk,n=2,per=2,budget=2,dev=1,kinds=0,async=1", "ops=gGk,n=2,per=2,budget=2,dev=1,kinds=0,free=1")
t("C28", "gai", "thrdef", "ops=gG,n=2,per=1,budget=2,dev=1", "ops=gGk,n=2,per=2,budget=2,dev=2,kinds=0,async=1", "ops=gGk,n=2,per=2,budget=2,dev=2,kinds=0", "ops=gk,n=2,per=2,budget=3,dev=0,kinds=0,async=1", "ops=g,n=3,per=1,budget=3,dev=1,kinds=0")

# ----------------------------------------------------------------- signals
q("C19", "sig", "thrdef", "ops=wsua,n=3,per=3,budget=6,sigs=U", "ops=ws,n=2,per=3,budget=4,dev=2,start=U", "ops=wsuSk,n=3,per=3,budget=5,arr=2,sigs=UI,start=U", "ops=sSwu,n=2,per=2,budget=3,dev=2,start=U", "ops=sw,n=3,per=2,budget=4,dev=2,start=U",
  "ops=wsup,n=2,per=3,budget=4,dev=1,arr=1,sigs=UI", "ops=sSa,n=2,per=2,budget=3,dev=1,sigs=UP,start=UP,ev=1,arr=1", "ops=wsaY,n=3,per=3,budget=5", "ops=wsak,n=3,per=3,budget=6", "ops=y,n=1,per=1,budget=1,dev=2,fin=1,start=UP,sigs=UP", "ops=sayp,n=1,per=4,budget=4,start=U", "ops=wuap,n=1,per=5,budget=5,sigs=P", "ops=sa,n=2,per=2,budget=4,sigs=P,start=P,ev=1",
  "ops=wsuk,n=2,per=3,budget=4,dev=1,sigs=UA,arr=1", "ops=s,n=1,per=2,budget=2,dev=2,start=UIP,sigs=UIP", "ops=wsu,n=4,per=2,budget=6,arr=2,start=U", "ops=sk,n=2,per=2,budget=3,dev=2,start=U,nostk=1")
t("C19", "sig", "thrdef", "ops=sSwu,n=2,per=2,budget=3,dev=3,start=U", "ops=s,n=1,per=3,budget=3,dev=3,start=UP,sigs=UP,ev=1", "ops=wsup,n=2,per=4,budget=5,dev=1,arr=1,sigs=UI", "ops=sSk,n=2,per=2,budget=3,dev=2,start=UP,sigs=UP", "ops=sSa,n=2,per=3,budget=4,dev=1,sigs=UP,start=UP,ev=1,arr=1", "ops=wsu,n=3,per=3,budget=5,dev=2,sigs=UI,start=U")
q("C16", "ev", "std", "ops=rRbp,prs=pp,n=3,per=3,budget=5,fd0=1,unit=150", "ops=rRbd,n=3,per=3,budget=5,fd0=1")
q("C28", "gai", "thrdef", "ops=gG,n=1,per=2,budget=2,dev=1,kinds=0,free=0,fd0=1,flt=1")

# ----------------------------------------------------------------- network
q("C27", "net", "std", "ops=dDT,n=1,per=2,budget=2,adr=012346789,kd=127,dev=2", "ops=dvk,n=2,per=2,budget=3,adr=1,kd=63,dev=1", "ops=v,n=2,per=2,budget=2,adr=02346789,kd=127,dev=2", "ops=vx,n=2,per=3,budget=4,adr=04,kd=127,dev=2", "ops=v,n=2,per=1,budget=2,adr=4,kd=127,dev=3,pre=1",
  "ops=aAiky,n=3,per=2,budget=5,kd=13,dev=1", "ops=cCnkef,n=2,per=3,budget=3,kd=3,dev=2", "ops=dDkef,n=3,per=2,budget=4,adr=1,async=1", "ops=aAik,n=3,per=2,budget=4,async=1,kd=13,dev=1", "ops=dkef,n=3,per=2,budget=3,adr=04,async=1,kd=127,dev=1", "ops=dDkef,n=2,per=2,budget=4,adr=1",
  "ops=dDkef,n=3,per=2,budget=4,adr=0", "ops=cCkef,n=3,per=2,budget=4,async=1,kd=1,dev=1", "ops=aiA,n=4,per=2,budget=6,in0=1")
q("C27", "nett", "thrdef", "ops=dD,n=1,per=1,budget=1,adr=5,dev=2,kd=127", "ops=dvk,n=2,per=2,budget=2,adr=5,dev=1,kd=127,connect=1", "ops=dvk,n=2,per=2,budget=2,adr=5,dev=1,kd=48,connect=1,async=1", "ops=dDk,n=2,per=2,budget=3,adr=5,dev=0,connect=1")
q("C27", "pipe", "nowr", "ops=PK,n=1,per=2,budget=2,kd=63,dev=2", "ops=PKk,n=2,per=2,budget=3,kd=63,dev=1", "ops=PKk,n=2,per=2,budget=3,kd=61,dev=1,async=1", "ops=PK,n=1,per=2,budget=2,kd=63,dev=1,fd0=1", "ops=PK,n=3,per=2,budget=5")
t("C27", "net", "std", "ops=dDvk,n=2,per=2,budget=3,adr=014,kd=127,dev=1", "ops=dDvaikef,n=3,per=2,budget=3,adr=014,kd=127,dev=1", "ops=dDvaikef,n=3,per=2,budget=4,adr=014", "ops=dDT,n=1,per=2,budget=2,adr=01246,kd=127,dev=3", "ops=cCnkef,n=2,per=3,budget=4,kd=3,dev=2", "ops=aAiky,n=3,per=3,budget=6,kd=13,dev=1", "ops=v,n=2,per=2,budget=2,adr=0123467,kd=127,dev=4")
t("C27", "net", "asan", "ops=dDvk,n=2,per=2,budget=2,adr=014,kd=127,dev=1", "ops=dkef,n=2,per=2,budget=3,adr=04,async=1,kd=127,dev=1")
t("C27", "nett", "thrdef", "ops=dvk,n=2,per=2,budget=2,adr=5,dev=1,kd=127", "ops=dvk,n=2,per=2,budget=2,adr=5,dev=1,kd=127,async=1", "ops=dDk,n=2,per=2,budget=2,adr=05,dev=1,kd=127", "ops=dD,n=1,per=1,budget=1,adr=5,dev=3,kd=127")
t("C27", "pipe", "nowr", "ops=PKk,n=3,per=2,budget=4,kd=63,dev=1", "ops=PK,n=1,per=2,budget=2,kd=63,dev=3")

# ------------------------------------------------------------ stacks, switches
_ctx = ("ops=nYvm,n=1,m=5,per=3,budget=7", "ops=nYvmP,n=2,m=4,per=3,budget=5,deep=1", "ops=nfFx,n=2,m=5,per=2,budget=5", "ops=nsrvmk,n=2,m=4,per=3,budget=5")
for _v in ("st", "stnp", "st4np", "stguard", "stnofree", "stgnf", "stheap", "stuc", "stsep"): q("C22", "ctx", _v, *_ctx)
q("C22", "ctx", "st", "ops=nPvm,n=1,m=5,per=4,budget=7,unit=150")
for _v in ("st4np", "stguard", "stnofree", "stsep"): q("C22", "ctx", _v, "ops=nYvm,n=1,m=6,per=5,budget=8")
q("C22", "ctx", "std", "ops=nYvmP,n=2,m=5,per=3,budget=6", "ops=F,n=1,per=1,budget=1")
for _v in ("st4np", "stguard", "stnofree"): t("C22", "ctx", _v, "ops=nYvm,n=1,m=8,per=6,budget=10", "ops=nYvmPk,n=2,m=6,per=3,budget=7,deep=1", "ops=nfFxv,n=2,m=6,per=3,budget=6")
t("C22", "ctx", "st", "ops=nPvm,n=1,m=6,per=5,budget=9,unit=150")

# ------------------------------------------------------------------ statistics
q("C24", "life", "std", "ops=vVmkpT,n=3,per=3,budget=5", "ops=pqzT,n=4,per=2,budget=6", "ops=kKdDvp,n=3,per=3,budget=5,tg=adsu", "ops=njek,n=2,m=4,per=3,budget=5", "ops=vVJmp,n=4,per=2,budget=6")
q("C24", "chan", "std", "ops=srck,n=3,per=3,budget=5,cap=1", "ops=sxXckT,n=3,per=3,budget=5", "ops=sSRrT,n=3,per=3,budget=6", "ops=sbrxk,n=4,per=2,budget=5", "ops=sxr,nch=2,n=3,per=3,budget=5,cap=1")
q("C24", "sync", "std", "ops=lrLRuk,n=3,per=4,budget=6", "ops=lWsuT,n=3,per=4,budget=7", "ops=lwsbuk,n=3,per=4,budget=6", "ops=aAndgGTk,n=3,per=3,budget=5")
q("C24", "gen", "std", "ops=NMck,pops=YDp,n=2,per=3,budget=6", "ops=NcRk,pops=Yp,n=2,per=3,budget=6,pasync=1")
q("C24", "ev", "std", "ops=rRbdk,n=3,per=3,budget=5", "ops=rwWbdfk,prs=s,only=0,n=3,per=2,budget=5,init=f", "ops=rRTbd,n=3,per=3,budget=5")
q("C24", "sig", "thrdef", "ops=wsuSk,n=3,per=3,budget=5,arr=2,sigs=UI,start=U", "ops=wsa,n=3,per=3,budget=5")
q("C24", "work", "thr", "ops=wmv,pins=0b,n=2,per=2,budget=4,dev=1", "ops=wk,pins=01,n=3,per=2,budget=3,dev=0")
q("C24", "stream", "nowr", "ops=rwfula,n=2,per=3,budget=4,dev=1,in0=2,cap=0,sp0=4")
q("C24", "net", "std", "ops=aAiky,n=3,per=2,budget=5,kd=13,dev=1", "ops=dDkef,n=3,per=2,budget=4,adr=1,async=1")
t("C24", "life", "std", "ops=vVmkpTjJ,n=3,per=3,budget=5", "ops=kKdDvpm,n=3,per=3,budget=6"); t("C24", "chan", "std", "ops=sSRrxXTk,n=3,per=3,budget=5,cap=1", "ops=srck,n=4,per=3,budget=6"); t("C24", "sync", "std", "ops=lrLRuTk,n=4,per=3,budget=6", "ops=lwWsbupk,n=3,per=4,budget=7")

# --------------------------------------- one shard: the trees of paused coroutines
q("C12", "life", "shard1", "ops=vm,n=5,per=2,budget=7", "ops=vVmkT,n=3,per=3,budget=5", "bulk=1")
q("C16", "ev", "std", "ops=rbO,n=3,per=3,budget=6", "ops=rRbOk,n=3,per=3,budget=5", "ops=rwbfO,prs=s,only=0,n=3,per=2,budget=5", "ops=rRbQp,prs=pp,init=.d,n=3,per=2,budget=4,ylen=150")
q("C14", "ev", "std", "ops=RQpb,init=d,n=3,per=3,budget=5,ylen=150", "ops=rRbQp,prs=pp,init=.d,n=3,per=2,budget=4,ylen=150", "ops=rRTbd,n=3,per=3,budget=5")
q("C13", "ev", "std", "ops=rRbQpy,prs=pp,init=.d,n=3,per=2,budget=4,ylen=150", "ops=rbdY,n=3,per=2,budget=5,ylen=100")
t("C16", "ev", "std", "ops=rRwbfOk,prs=s,only=0,n=3,per=3,budget=5", "ops=rRbOpk,n=4,per=2,budget=6"); t("C14,C13", "ev", "std", "ops=rRbQpyk,prs=pp,init=.d,n=3,per=3,budget=5,ylen=150")
q("C16", "ev", "shard1", "bulk=1", "ops=rbd,prs=pp,n=3,per=3,budget=5", "ops=rRwcbk,prs=ps,only=02,act=13,n=3,per=2,budget=5", "ops=rwbd,prs=s,only=0,n=4,per=2,budget=6")
t("C16", "ev", "shard1", "ops=rRbdk,prs=pp,n=4,per=2,budget=5")
q("C11,C13", "life", "shard1", "ops=jvmk,n=4,per=2,budget=5", "ops=nvj,n=1,m=7,per=3,budget=8", "bulk=1")

# ---------------------------------------------------------------------- misuse
q("C25", "err", "nowr", *["ctx=%d,len=2,panic=%d" % (c, p) for c in range(5) for p in (0, 1)])
q("C21", "err", "nowr", "ctx=4,len=2,panic=0")
q("C25", "err", "nowk", "ctx=1,len=1", "ctx=0,len=1"); q("C25", "err", "nowrasan", "ctx=1,len=1", "ctx=0,len=1", "ctx=4,len=1")
t("C25", "err", "nowr", *["ctx=%d,len=3,panic=0" % c for c in range(5)])

# --------------------------------------------------------------- random numbers
q("C26", "rand", "nowr", "ops=fsoc,n=2,per=3,budget=5,sz=bdl", "ops=fsocw,n=1,per=5,budget=5,sz=bej", "ops=fFcykT,n=3,per=2,budget=4,sz=jl", "ops=fsow,n=2,per=3,budget=5,sz=bfm,noseed=1", "ops=f,n=1,per=4,budget=4,sz=abcdefghijklmn",
  "ops=c,n=2,per=2,budget=3,sz=abcdefghijklmn", "ops=fsockp,n=3,per=2,budget=5,sz=dj", "ops=fcs,n=2,per=3,budget=4,sz=cdjn", "ops=fcwy,n=3,per=2,budget=4,sz=fin")
q("C26", "pipe", "nowr", "ops=PK,n=1,per=2,budget=2,kd=63,dev=1", "ops=PKk,n=2,per=2,budget=3")
q("C26", "rand", "nowrasan", "ops=fcs,n=2,per=2,budget=3,sz=aceijn")
t("C26", "rand", "nowr", "ops=fsockp,n=3,per=3,budget=5,sz=dj", "ops=fsocw,n=2,per=4,budget=6,sz=bj", "ops=fs,n=1,per=5,budget=5,sz=abcdefghijklmn", "ops=fFcsoykT,n=3,per=2,budget=5,sz=bl")

# --------------------------------------------------------------- resource faults
q("C23", "fault", "nowr", "ops=nNcxgsredb,n=2,per=2,budget=3,dev=2", "ops=nNcg,n=1,per=4,budget=4,dev=2,msz=0", "ops=c,n=1,per=4,budget=4,dev=3,msz=0,cap=0", "ops=cxg,n=2,per=3,budget=4,dev=1,msz=300,cap=3", "ops=sr,n=1,per=5,budget=5,dev=2", "ops=edb,n=2,per=2,budget=4,dev=2", "ops=ng,n=1,per=2,budget=2,dev=2,start=1", "ops=nNp,n=2,per=3,budget=4,dev=1,unit=150", "ops=srb,n=2,per=3,budget=4,dev=2")
for _v in ("nopool", "stgnf", "stguard", "stheap", "st"): q("C23", "fault", _v, "ops=nNg,n=2,per=3,budget=3,dev=2", "ops=ng,n=1,per=2,budget=2,dev=2,start=1")
q("C23", "fault", "nowrasan", "ops=nNcxgsredb,n=1,per=2,budget=2,dev=2", "ops=n,n=1,per=1,budget=1,dev=2,start=1")
q("C23", "work", "thr", "ops=w,pins=01,n=2,per=2,budget=3,dev=2,flt=1", "ops=wk,pins=0,n=2,per=2,budget=3,dev=1,flt=1", "ops=wp,pins=0,n=2,per=3,budget=4,dev=1,unit=1500,flt=1")
q("C23", "gai", "thrdef", "ops=gT,n=1,per=1,budget=1,dev=2,flt=1", "ops=gk,n=2,per=2,budget=2,dev=1,kinds=01,flt=1,free=0")
q("C23", "net", "std", "ops=dDT,n=1,per=2,budget=2,adr=0123467,kd=36,dev=2", "ops=v,n=2,per=2,budget=2,adr=02346789,kd=36,dev=2", "ops=aAiky,n=3,per=2,budget=4,kd=4,dev=1", "ops=dvk,n=2,per=2,budget=3,adr=1,kd=36,dev=1")
q("C23", "pipe", "nowr", "ops=PK,n=1,per=2,budget=2,kd=36,dev=2", "ops=PKk,n=2,per=2,budget=3,kd=36,dev=1")
t("C23", "fault", "nowr", "ops=nNcxgsredb,n=2,per=3,budget=4,dev=2", "ops=nNcg,n=2,per=3,budget=5,dev=2,msz=0", "ops=nNcg,n=1,per=4,budget=4,dev=4,msz=0")
for _v in ("nopool", "stgnf", "stguard"): t("C23", "fault", _v, "ops=nNg,n=2,per=4,budget=5,dev=2")

# ------------------------------------------------------- runtimes leave nothing behind
q("C29", "chan", "std", "ops=srcxk,n=2,per=2,budget=3,runs=2", "ops=srb,n=2,per=2,budget=3,runs=3,recycle=1", "ops=sSRrck,n=3,per=3,budget=5,cap=1", "ops=sxrX,nch=2,n=3,per=3,budget=5,cap1=1")
q("C29", "life", "std", "ops=nvVkj,n=2,m=3,per=2,budget=3,runs=2", "ops=vmkp,n=2,per=3,budget=3,runs=2,unit=150", "ops=njek,n=2,m=4,per=3,budget=5", "ops=kKdDvp,n=3,per=3,budget=5,tg=adsu", "bulk=1")
q("C29", "sync", "std", "ops=lwsuk,n=2,per=3,budget=3,runs=2", "ops=adgk,n=2,per=3,budget=3,runs=2", "ops=lWsuTk,n=3,per=3,budget=5")
q("C29", "gen", "std", "ops=Nck,pops=Yp,n=1,per=3,budget=4,runs=2", "ops=NcRk,pops=Yp,n=2,per=3,budget=6,pasync=1")
q("C29", "ev", "std", "ops=rRbk,n=2,per=2,budget=3,runs=2", "ops=rwWbdfk,prs=s,only=0,n=3,per=2,budget=5,init=f", "ops=rRbd,n=2,per=2,budget=4,fd0=1")
q("C29", "io", "nowr", "ops=rwag,n=2,per=2,budget=2,dev=1,runs=2"); q("C29", "stream", "nowr", "ops=rwblac,n=2,per=2,budget=2,dev=1,runs=2", "ops=rwfuack,n=2,per=3,budget=4,dev=1")
q("C29", "work", "thr", "ops=wk,pins=0,n=2,per=2,budget=2,dev=1,runs=2", "ops=wk,pins=01,n=2,per=2,budget=3,dev=2"); q("C29", "sig", "thrdef", "ops=wsa,n=2,per=2,budget=3,start=U,runs=2", "ops=wsuSk,n=2,per=3,budget=4,arr=2,sigs=UI,start=U")
for _v in ("st", "stnp", "st4np", "stguard", "stnofree", "stgnf", "stheap", "stuc", "stsep"): q("C29", "ctx", _v, "ops=nYvm,n=1,m=3,per=2,budget=3,runs=2", "ops=nYvm,n=1,m=6,per=4,budget=6")
q("C29", "rand", "nowr", "ops=fsc,n=2,per=2,budget=2,runs=2"); q("C29", "gai", "thrdef", "ops=gG,n=1,per=1,budget=1,dev=1,kinds=0,runs=2", "ops=gk,n=2,per=2,budget=2,dev=1,kinds=01,free=0")
q("C29", "pipe", "nowr", "ops=PK,n=1,per=1,budget=1,dev=1,kd=36,runs=2"); q("C29", "fault", "nowr", "ops=ncg,n=1,per=2,budget=2,dev=1,runs=2", "ops=ng,n=1,per=2,budget=2,dev=2,start=1")
q("C29", "net", "std", "ops=dDvk,n=1,per=2,budget=2,adr=014,dev=0,runs=2", "ops=aAiky,n=3,per=2,budget=4,kd=13,dev=1")
for _v in ("sep", "nopool", "asan"): q("C29", "chan", _v, "ops=srcxk,n=2,per=2,budget=3,runs=2"); q("C29", "life", _v, "ops=nvVkj,n=2,m=3,per=2,budget=%d,runs=2" % (2 if _v == "asan" else 3)); q("C29", "sync", _v, "ops=lwsuk,n=2,per=3,budget=3,runs=2")
t("C29", "chan", "std", "ops=srcxk,n=2,per=3,budget=4,runs=2", "ops=srcx,n=2,per=2,budget=3,runs=3"); t("C29", "life", "std", "ops=nvVkj,n=2,m=3,per=3,budget=4,runs=2", "ops=vmkp,n=2,per=3,budget=3,runs=3,unit=150")
t("C29", "sync", "std", "ops=lwsuk,n=2,per=3,budget=4,runs=2", "ops=ladgsk,n=2,per=3,budget=4,runs=2"); t("C29", "net", "std", "ops=dDvk,n=2,per=2,budget=2,adr=014,dev=0,runs=2"); t("C29", "io", "nowr", "ops=rwag,n=2,per=2,budget=3,dev=1,runs=2"); t("C29", "stream", "nowr", "ops=rwblac,n=2,per=2,budget=3,dev=1,runs=2")
t("C29", "ctx", "st4np", "ops=nYvm,n=1,m=4,per=3,budget=4,runs=2", "ops=nYvm,n=1,m=8,per=6,budget=9"); t("C29", "work", "thr", "ops=wk,pins=01,n=2,per=2,budget=3,dev=1,runs=2")

# ------------------------------------------- mixed workloads: who may run is woken however busy the rest is
_mw = {"C14": "SRD", "C16": "ED", "C19": "G", "C20": "W", "C02": "CN", "C04": "A", "C06": "I", "C07": "L", "C08": "LM", "C09": "T", "C10": "Q", "C11": "J", "C12": "V", "C15": "U"}
q("C13", "mix", "thrdef", "wk=SRDEGWCNLMVJQTUAI,tr=yescgbrmtkxw,maxtr=4,dev=0", "wk=SDEGWCV,tr=yesgbx,two=1,dev=0")
for _p, _w in _mw.items(): q(_p, "mix", "thrdef", "wk=%s,tr=yescgbrmtkxw,dev=0" % _w)
for _p in ("C14", "C16", "C19", "C20"): q(_p, "mix", "thrdef", "wk=%s%s,tr=yesgbx,two=1,dev=0" % (_mw[_p], "CV")); q(_p, "mix", "thrdef", "wk=%s,tr=yesgb,dev=1" % _mw[_p][0])
t("C13", "mix", "thrdef", "wk=SRDEGWCNLMVJQTUAI,tr=yescgbrmtkxw,dev=0", "wk=SRDEGWCNLMVJQTUAI,tr=yesgbxw,two=1,dev=0", "wk=SEGWCV,tr=yesgb,dev=1")
for _p in ("C14", "C16", "C19", "C20"): t(_p, "mix", "thrdef", "wk=SDEGW,tr=yescgbxw,two=1,dev=0", "wk=%s,tr=yesgbx,dev=1" % _mw[_p][0], "wk=%s,tr=esgb,dev=2" % _mw[_p][0])
