"""What each property's check runs.  runs: recordings of the real code and the trace specification that judges them;
models: design models checked exhaustively by TLC."""
def R(driver,spec,args,variant="epoll"): return dict(driver=driver,spec=spec,args=args,variant=variant)
def M(module,cfg=None,workers=2): return dict(module=module,cfg=cfg or module+".cfg",workers=workers)
PLANS={}
def plan(pid,quick,thorough=None,models=None,title="",note="",level="model_checking",technique=None,**kw):
    PLANS[pid]=dict(runs=dict(quick=quick,thorough=thorough or quick),models=models or [],level=level,note=note,
        technique=technique or "TLA+ trace specification checked with TLC on executions of the real code under a deterministic scheduler",**kw)

ring=lambda mask,n,ops,k: [R("d_ring","RingBufTrace","--scenario ring --mode rand --max %d --workloads %d ops=%d mask=%s %s"%(n,n,ops,mask,x)) for x in (["profile=0","profile=1","profile=3","profile=4 short=0"][:k])]
plan("C01",ring("c01",900,60,4),ring("c01",9000,150,4),models=[M("RingBufMC")],
  note="two buffers of sizes from 1 byte to several thousand, generated operation sequences incl. wrap, growth, move; contents compared run by run by the specification")
plan("C02",ring("c02",900,60,4),ring("c02",9000,150,4),
  note="peek/search/checksum/normalize at every kind of offset and count (huge and boundary included) on wrapped and unwrapped content")
plain=lambda rs,n: [dict(r,variant="plain",args=r["args"].replace("--max 900","--max %d"%n).replace("--workloads 900","--workloads %d"%n)) for r in rs]
plan("C03",ring("c03",900,80,4)+plain(ring("c03",900,80,4)[1::2],600),ring("c03",9000,200,4)+plain(ring("c03",9000,200,4),9000),
  note="socket pairs of the simulated kernel with every short-transfer/EAGAIN choice, EOF and reset")

lf=lambda scen,args,mode="--mode dfs --bound 2 --max 20000 --time 25": R("d_lfq","LFQueueTrace","--scenario %s %s %s"%(scen,mode,args))
lq=[lf("lfq4","np=2 nc=1 fill=2 warm=1"),lf("lfq4","np=2 nc=2 ops=2 fill=2 warm=2"),lf("lfq2","np=2 nc=2 ops=2 fill=0 warm=1"),
    lf("lfq4","np=3 nc=0 ops=2 fill=1 warm=3"),lf("lfq4","np=1 nc=2 ops=3 fill=1"),lf("lfq4","np=2 nc=1 ops=3 fill=0 warm=3"),
    lf("lfq4","mixed=1 ops=3 weak=1","--mode pct --d 4 --max 2500 --workloads 250 --time 15"),
    lf("lfq2","mixed=1 ops=3 weak=1","--mode rand --d 3 --max 2500 --workloads 250 --time 15"),
    lf("lfs4","np=2 nc=2 ops=2 fill=3 warm=1"),lf("lfs4","np=1 nc=2 ops=2 fill=3 warm=2"),
    lf("lfs2","mixed=1 ops=3","--mode pct --d 4 --max 2500 --workloads 250 --time 15"),lf("lfs4","mixed=1 ops=3 full=1 fill=3","--mode rand --d 3 --max 2500 --workloads 250 --time 15"),
    lf("lfq8","mixed=1 ops=6 np=2 nc=1","--mode pct --d 4 --max 1500 --workloads 150 --time 15")]
lt=[lf("lfq4","np=2 nc=2 ops=2 fill=%d warm=%d"%(f,w),"--mode dfs --bound 3 --max 60000 --time 200") for f in (0,2,3) for w in (0,3)]+[lf("lfq2","np=2 nc=2 ops=2 fill=%d warm=1"%f,"--mode dfs --bound 4 --max 60000 --time 200") for f in (0,1)]+[
    lf(s,"mixed=1 ops=4 weak=1","--mode %s --d 5 --max 15000 --workloads 1500 --time 200"%m) for s in ("lfq2","lfq4","lfq8","lfs2","lfs4") for m in ("pct","rand")]
plan("C04",lq,lt,models=[M("LFQueueMC",workers=4)],note="every schedule within the preemption bound for the listed scripts plus randomized schedules; linearizability decided by TLC")

def seqruns(driver,spec,scen,n,nt,args="",argst=None,d="--mode rand"):
    return ([R(driver,spec,"--scenario %s %s --max %d --workloads %d %s"%(scen,d,k,k,a)) for k,a in ((n,args),)],
            [R(driver,spec,"--scenario %s %s --max %d --workloads %d %s"%(scen,d,k,k,a)) for k,a in ((nt,argst or args),)])
def both(*ps): return sum([p[0] for p in ps],[]),sum([p[1] for p in ps],[])
def mt(driver,spec,scen,n,nt,args="",w=None,d=3,variant="epoll"):
    """randomized schedules: n executions (nt in the thorough tier), each workload w executions"""
    f=lambda k: R(driver,spec,"--scenario %s --mode rand --d %d --max %d --workloads %d %s"%(scen,d,k,max(1,k//(w or 1)),args),variant)
    return [f(n)],[f(nt)]
def dfs(driver,spec,scen,args="",bound=2,n=4000,time=15,w=None,nt=60000,timet=200,boundt=3,variant="epoll"):
    f=lambda b,k,t: R(driver,spec,"--scenario %s --mode dfs --bound %d --max %d --time %d %s %s"%(scen,b,k,t,"--workloads %d"%w if w else "",args),variant)
    return [f(bound,n,time)],[f(boundt,nt,timet)]

q,t=both(seqruns("d_core","PacketTrace","packet",2200,20000,"ops=40","ops=120"))
plan("C07",q,t,note="generated sequences of build, copy, scribble, fragment and parse; every packet's fields, wire bytes and content compared by the specification")
q,t=both(*[mt("d_core","SyncTrace","syncs",n,n*10,a,w) for n,a,w in ((900,"ops=2",1),(900,"ops=3 kind=sig",1),(600,"ops=3 kind=mtx",1),(600,"kind=tw ops=3 nt=3",2),(900,"round=1 ops=3",1))],
         dfs("d_core","SyncTrace","syncs","kind=sig ops=2 nt=2 clock=0",w=40,n=2500,nt=30000),dfs("d_core","SyncTrace","syncs","kind=mtx ops=1 nt=3 clock=0",w=10,n=1500,nt=20000),mt("d_core","SyncTrace","syncs",400,4000,"ops=3 kind=mtx",1,3,"plain"),mt("d_core","SyncTrace","syncs",300,3000,"round=1 ops=3",1,3,"plain"))
plan("C19",q,t,models=dict(quick=[M("SyncMC")],thorough=[M("SyncMC"),M("SyncMC","SyncLiveMC.cfg")]),note="mixed notify/wait/timed wait and lock/try/unlock scripts of 2-4 threads under every clock choice; the trace specification decides linearizability and timeouts")
q,t=both(mt("d_core","ThreadTrace","threads",2500,25000),mt("d_core","ThreadTrace","threads",1200,12000,"n=3",3),mt("d_core","ThreadTrace","threads",300,6000,"mem=1"))
plan("C20",q,t,note="up to three attached, detached or empty threads with every order of create, run, settle, timed join and join")
q,t=both(mt("d_core","PipeTrace","pipes",1200,12000),mt("d_core","PipeTrace","pipes",600,6000,"mt=1 ops=12"),mt("d_core","PipeTrace","pipes",400,4000,"sockp=1"),mt("d_core","PipeTrace","pipes",400,4000,"sockp=1 mt=1 ops=12"),mt("d_core","PipeTrace","pipes",400,4000,"",None,3,"plain"))
plan("C21",q,t,note="both pipe constructions over the simulated kernel with small and large capacities, one and two threads")
q,t=both(seqruns("d_core","RingQueueTrace","ringq_int",1500,15000,"ops=60","ops=200"),seqruns("d_core","RingQueueTrace","ringq_str",700,7000,"ops=60","ops=200"))
plan("C23",q,t,note="generated sequences over unbounded and fixed queues of trivial and non-trivial elements; every observation after every operation")
q,t=both(seqruns("d_core","PeriodTrace","period_seq_l",1200,12000,"ops=50","ops=200"),seqruns("d_core","PeriodTrace","period_seq_n",800,8000,"ops=50","ops=200"),seqruns("d_core","PeriodTrace","period_clock",500,5000),
         mt("d_core","PeriodTrace","period_mt",500,5000,"mem=3 np=2 nr=1 ops=2",5),mt("d_core","PeriodTrace","period_mt",400,4000,"mem=2 np=1 nr=2 ops=2",4),mt("d_core","PeriodTrace","period_mt",500,5000,"mem=2 np=2 nr=2 ops=2 tot=0",3),dfs("d_core","PeriodTrace","period_mt","mem=1 np=0 nr=2 ops=1 tot=1",n=20000,w=80,nt=60000,bound=1),dfs("d_core","PeriodTrace","period_mt","mem=1 np=1 nr=1 ops=2 tot=0",n=20000,w=40,nt=60000,bound=1),dfs("d_core","PeriodTrace","period_mt","np=2 nr=1 ops=1",n=800,w=4,nt=8000))
plan("C24",q,t,note="sequential histories over every gap pattern; concurrent recorders and readers with plain memory accesses as scheduling points")
q,t=both(*[mt("d_core","MinMaxTrace","minmax_"+ty,n,10*n,a,w) for ty,n,a,w in (("i32",700,"",2),("u32",400,"nr=2",2),("i64",400,"ops=3",2),("f64",500,"weak=1",2),("f32",300,"",2),("i32",700,"ex=1 weak=1 nw=3",2),("f64",300,"ex=1",2),("f64",300,"seq=1 nw=4 nr=2",1),("i32",300,"seq=1 nw=4 nr=2",1))],
         dfs("d_core","MinMaxTrace","minmax_i32","nw=2 nr=0 ops=1",n=1500,w=12,nt=30000),dfs("d_core","MinMaxTrace","minmax_i32","ex=1 nw=2 nr=0 ops=1",n=1500,w=12,nt=30000))
plan("C25",q,t,models=dict(quick=[M("MinMaxMC")],thorough=[M("MinMaxMC","MinMaxDeepMC.cfg")]),note="concurrent updates, reads and conditional exchanges on signed, unsigned and floating types, spurious weak-CAS failure included")
q,t=both(seqruns("d_crypt","AESTrace","aes",300,3000))
plan("C26",q,t,batch=60,note="AES-128 CBC written out in TLA+ (key schedule, SubBytes, ShiftRows, MixColumns and inverses over GF(2^8)); TLC recomputes every recorded message")
q,t=both(seqruns("d_crypt","DHTrace","dh",400,4000))
plan("C27",q,t,batch=80,note="modular exponentiation over 2^128-159 in TLA+ (limb arithmetic); TLC recomputes public keys and secrets, boundary keys included")
q,t=both(seqruns("d_crypt","AdlerTrace","adler",900,9000))
plan("C28",q,t,batch=200,note="Adler-32 in TLA+; every recorded checksum recomputed, whole and continued over generated splits")
q,t=both(seqruns("d_crypt","XorShiftTrace","xors",500,5000))
plan("C29",q,t,batch=100,note="xorshift128+ in TLA+ on 64-bit words; keystream and masked buffers recomputed for every length, offset and chunking")
q,t=both(seqruns("d_crypt","AddressTrace","addr",1200,12000))
plan("C31",q,t,note="addresses built every way, from simulated sockets too, compared with the specification's value")

wk=lambda n,a="",w=1: mt("d_event","WorkerTrace","worker",n,12*n,a,w)
q,t=both(wk(300,"mem=1"),wk(200,"mem=1 ns=3 ops=2"),wk(1400),wk(700,"ns=2 ops=2 self=1",2),wk(500,"ns=3 ops=2"),dfs("d_event","WorkerTrace","worker","ns=1 ops=1 refuse=0 presend=0",n=2500,time=12,w=6,nt=40000),dfs("d_event","WorkerTrace","worker","ns=2 ops=1 refuse=0 presend=0",n=2500,time=12,w=6,nt=40000),
         ([R("d_event","WorkerTrace","--scenario worker_flood --mode rand --d 1000 --steps 3000000 --max 1")],)*2)
plan("C05",q,t,models=[M("WorkerMC")],note="several senders (the worker among them), all three send forms, batches, messages before start; quiescence check for stuck messages")
q,t=both(wk(200,"mem=1 stopearly=1"),wk(200,"mem=1 cbstop=1"),wk(1000),wk(800,"stopearly=1"),wk(600,"cbstop=1"),wk(500,"refuse=1"),dfs("d_event","WorkerTrace","worker","ns=1 ops=1 stopearly=1 refuse=0",n=2500,time=12,w=6,nt=40000),dfs("d_event","WorkerTrace","worker","ns=1 ops=1 refuse=1",n=1500,time=10,w=5,nt=20000))
plan("C06",q,t,models=[M("WorkerMC","WorkerStopMC.cfg")],note="start, early sends, refusal, stop from outside, from a callback and before the senders are done, join twice")
lo=lambda n,a="",w=1,variant="epoll",scen="looper": mt("d_event","LooperTrace",scen,n,12*n,a,w,3,variant)
q,t=both(lo(250,"mem=1 xt=2"),lo(1000),lo(500,"order=1"),lo(400,"step=1"),lo(300,"tm=1"),lo(200,"xt=1"),lo(500,"",1,"select"),lo(300,"step=1",1,"select"),lo(150,"eintr=1"),lo(150,"eintr=1",1,"select"))
plan("C08",q,t,models=[M("LooperMC")],note="registrations, deletions, enables and disables inside and outside callbacks against readiness of the simulated kernel, epoll and select loops")
q,t=both(lo(250,"mem=1 xt=2"),lo(600),lo(250,"crowd=30"),lo(500,"xt=2"),lo(300,"xt=1 eintr=1"),lo(300,"order=1"),lo(400,"",1,"select"),lo(400,"xt=2",1,"select"),lo(150,"crowd=30",1,"select"))
plan("C09",q,t,models=[M("LooperMC")],note="no sleep while something ready is enabled, no starvation beyond five rounds, many descriptors, enables from other threads")
q,t=both(lo(300,"mem=1",scen="lstop"),lo(150,"mem=1 stoppers=2"),lo(900,"stoppers=2"),lo(600,"stoppers=1 env=1 nd=1"),lo(1500,scen="lstop"),lo(400,"selfstop=1"),lo(400,"stoppers=2",1,"select"),lo(300,scen="lstop",variant="select"),
         dfs("d_event","LooperTrace","lstop","",n=3000,time=12,w=10,nt=40000))
plan("C10",q,t,models=[M("LoopStopMC")],note="stop requests before, during and at the end of the loop from several threads; looper destroyed right after")
q,t=both(lo(150,"mem=1 tm=1 xt=1"),lo(900,"tm=1"),lo(500,"tm=1 step=1"),lo(300,"tm=1 order=1"),lo(300,"tm=1",1,"select"),lo(300,"tm=1 xt=1"),lo(400,"tm=1 long=1"),lo(150,"tm=1 long=1",1,"select"))
plan("C11",q,t,note="timers on the virtual clock, deletion and reuse inside callbacks, late loops")

cn=lambda n,a="",w=1,variant="epoll": mt("d_net","ConnTrace","conn",n,12*n,a,w,3,variant)
q,t=both(cn(600,"mem=1 ns=2 end=0"),cn(1200,"ns=2 end=0"),cn(600,"ns=2 end=0 short=1 eagain=1"),cn(1200,"ns=1 end=4"),cn(800,"ns=0 end=0 short=1"),cn(600,"ns=2 end=0 short=1",1,"select"),cn(500,"ns=2 end=4 ctlshut=1",1),cn(400,"ns=2 end=0 short=1 eagain=1",1,"plain"),
         dfs("d_net","ConnTrace","conn","ns=1 ops=1 end=0 eagain=0 short=0 order=0",n=2000,time=12,w=4,nt=40000))
plan("C12",q,t,models=[M("ConnMC")],note="loop thread and up to two other senders, peers that read late or in bits, short writes and would-block results; the specification finds the order of the sends from what the peer received")
q,t=both(cn(300,"mem=1 ns=2 end=4 ctlshut=1"),cn(900,"ns=1 end=4 ctlshut=1"),cn(700,"ns=0 end=4 shutp=6"),cn(600,"ns=2 end=2 ctlshut=2"),cn(500,"ns=1 end=1 eagain=1"),cn(600,"ns=1 end=3 shutp=4"),cn(500,"ns=1 end=4 ctlshut=1",1,"select"),cn(400,"ns=2 end=2 eagain=1",1,"select"),cn(400,"ns=1 end=4 ctlshut=1",1,"plain"),cn(300,"ns=1 end=1 eagain=1",1,"plain"),
         dfs("d_net","ConnTrace","conn","ns=1 ops=1 end=4 ctlshut=1 eagain=0 short=0 order=0",n=2000,time=12,w=4,nt=40000))
plan("C13",q,t,models=[M("ConnMC","ConnEndMC.cfg")],note="shutdown from callbacks and from the loop, peer close, half close and reset, would-block reads, broken pipes, sends racing with the close")
q,t=both(cn(300,"mem=1 stats=1 ns=2 end=4"),cn(900,"stats=1 ns=1 end=4"),cn(900,"stats=1 ns=2 end=0 short=1"),cn(700,"stats=1 ns=0 end=4 eagain=1"),cn(500,"stats=1 ns=1 end=4 short=1",1,"select"))
plan("C32",q,t,note="statistics read inside callbacks and at the end, compared with the bytes the peer side of the simulated kernel holds")
sv=lambda n,a="",w=1,variant="epoll",scen="server": mt("d_net","ServerTrace",scen,n,12*n,a,w,3,variant)
q,t=both(sv(250,"mem=1 cl=8 nw=2"),sv(900,"end=4 cl=12"),sv(500,"cl=6 early=1"),sv(500,"nw=3 cl=12 np=2"),sv(500,"cl=8 stats=1"),sv(500,"cl=8",1,"select"),sv(300,"afail=1 cl=8"))
plan("C14",q,t,models=[M("ServerMC")],note="clients of every kind arriving before, during and after the start, accept failures, one to three workers; every callback's thread, order, id and connection judged by the specification")
q,t=both(sv(250,"mem=1 early=1"),sv(250,"mem=1",1,"epoll","sstop"),sv(400,"early=1"),sv(500,"early=1 cbcmd=1 cbstop=1"),sv(1200,"",1,"epoll","sstop"),sv(500,"stw=1"),sv(500,"",1,"select","sstop"),sv(300,"early=1",1,"select"),
         dfs("d_net","ServerTrace","sstop","nw=1 nc=1 two=0 calm=1",n=2500,time=12,w=5,nt=40000))
plan("C15",q,t,models=[M("ServerMC","ServerLiveMC.cfg")],note="stop from outside, from callbacks (refused) and twice, with connections arriving, sending and closing at any moment; join, descriptor and callback accounting afterwards")
q,t=both(sv(200,"mem=1 np=3 slist=2"),sv(700,"np=3 slist=2"),sv(500,"nostart=1 np=2"),sv(700,"a=3",1,"epoll","sstop"),sv(400,"np=3 slist=2 nw=2 early=1"),sv(400,"np=3 slist=2",1,"select"),sv(400,"bfail=1 np=3 cl=3"))
plan("C16",q,t,note="several ports bound, listened on, closed individually before, during and after the stop; connects judged by the state of each port")
q,t=both(sv(250,"mem=1 cmds=1 nt=2 ops=4"),sv(600,"cmds=1 nt=2 ops=6"),sv(700,"cmds=1 nt=1 ops=3 cbcmd=1"),sv(400,"cmds=1 nt=1 ops=4 nw=2 cbcmd=3"),sv(500,"cmds=1 nt=2 ops=4 early=1 cbcmd=2"),sv(400,"cmds=1 nt=2 ops=5",1,"select"))
plan("C30",q,t,note="commands to workers and to the master from users and from every kind of callback (start callbacks included) before, during and after start and stop")
cl=lambda n,a="",w=1,variant="epoll": mt("d_net","ClientTrace","client",n,12*n,a,w,3,variant)
q,t=both(cl(600,"mem=1 ns=0 ctl=8"),cl(1300,""),cl(900,"ns=0 maxtry=9 ctl=14"),cl(250,"sfail=1"),cl(150,"sfail=1",1,"select"),cl(700,"ns=0 drop=1"),cl(600,"clock=1"),cl(600,"ns=1",1,"select"),
         dfs("d_net","ClientTrace","client","ns=0 ctl=3 end=0 short=0 eagain=0 order=0",n=1500,time=10,w=30,nt=40000))
plan("C17",q,t,models=[M("ClientMC")],note="refused, unreachable, delayed, hanging and timed out attempts, retries, connect and disconnect at any point (inside the failure callback too), the last reference dropped in callbacks")
q,t=both(cl(600,"mem=1 ns=2"),cl(1200,"ns=2"),cl(900,"ns=1 ctl=20"),cl(700,"ns=0 end=4 short=1"),cl(600,"ns=2 end=2"),cl(600,"ns=2 short=1",1,"select"),
         dfs("d_net","ClientTrace","client","ns=1 ops=1 ctl=3 end=0 short=0 eagain=0 order=0",n=1500,time=10,w=30,nt=40000))
plan("C18",q,t,models=[M("ClientMC")],note="data kept while connecting, sends of other threads from the moment the connection is visible, peers that read late, close or reset")
lg=lambda n,a="",w=1,nm=(): mt("d_log","LogTrace","logs",n,12*n,a,w)
q,t=both(lg(300,"mem=1"),lg(900,""),lg(600,"fail=1"),lg(600,"nt=3 ops=4 fail=0"),lg(300,"nt=2 ops=2",5),dfs("d_log","LogTrace","logs","nt=2 ops=1 fail=0",n=1500,time=10,w=20,nt=20000))
plan("C22",q,t,note="two to four loggers with texts of every length around the buffer size, threshold and file changes, open failures; the final files are explained line by line by the specification")

ap=lambda drv,spec,scen,n,a="",w=1: mt(drv,spec,scen,n,12*n,a,w)
q,t=both(ap("d_echo","EchoTrace","echo",150,"mem=1"),ap("d_echo","EchoTrace","echo",1200),ap("d_echo","EchoTrace","echo",300,"ops=60"))
plan("C33",q,t,note="the sample's main in the simulated system, one to four clients sending pieces of every size, closing, half closing, resetting, exit and shutdown messages")
q,t=both(ap("d_echo","ChatTrace","chat",600,"mem=1 nc=4"),ap("d_echo","ChatTrace","chat",1200),ap("d_echo","ChatTrace","chat",300,"ops=60"))
plan("C34",q,t,note="the sample's main in the simulated system, several clients sending split and joined messages, leaving and resetting in the middle")
q,t=both(ap("d_s5","SocksTrace","socks",200,"mem=1"),ap("d_s5","SocksTrace","socks",1500),ap("d_s5","SocksTrace","socks",400,"nc=3 ops=60"))
plan("C35",q,t,note="the sample's main in the simulated system, right and wrong greetings and requests in pieces, hosts that accept, refuse, delay or time out, tunnels ended from either side")
q,t=both(ap("d_relay","RelayTrace","relay",100,"mem=1"),*[ap("d_relay","RelayTrace","relay",280,a) for a in ("","nc=2 early=0","nx=2 nc=3","enc=1 nc=2 ops=60","nw=1 nc=4")])
plan("C36",q,t,note="both samples' main in the simulated system, several clients over one to three links, clear and encrypted, targets that accept, refuse, delay or time out, junk sent to the relay server")
q,t=both(mt("d_sys","ClockTrace","clocks",1500,20000))
plan("C37",q,t,note="concurrent first calls and readings at chosen instants (ends of days, months, leap years, microsecond boundaries) in five time zones")
q,t=both(mt("d_sys","ProbeTrace","probe",2500,30000))
plan("C38",q,t,note="one to three threads probing peers that accept, refuse, answer late or never, with timeouts around the moment of the answer, zero and unlimited; failing socket and fcntl calls")
ft=lambda scen,n: mt("d_ft","FileTrace",scen,n,12*n,"",1,3,"log")
q,t=both(ft("ft",700),ft("ftraw",700),ft("ftbad",250))
plan("C39",q,t,note="both samples' main in the simulated system, files of every size from empty to several fragments, several clients, a late server, raw clients with valid and invalid requests, servers that answer wrongly")
q,t=both(ap("d_rp","PipeAppTrace","pipe",150,"mem=1"),*[ap("d_rp","PipeAppTrace","pipe",500,"mode=%d"%m) for m in (0,1,2)])
plan("C40",q,t,note="the sample's main in the simulated system in its three modes, ends that come, send and go in every order, refused third connections, targets that accept, refuse, delay or time out")
q,t=both(*[seqruns("d_opt","OptTrace",k,n,12*n,"rounds=4","rounds=6") for k,n in (("opts_a",700),("opts_w",500),("opts_m",500))])
plan("C41",q,t,models=dict(quick=[M("OptMC")],thorough=[M("OptMC","OptDeepMC.cfg")]),note="generated option tables, flags and command lines of up to 60 arguments, narrow and wide characters, fixed and growing buffers; every text ends at a guard page")

ld=lambda drv,scen,n,a="",variant="epoll",w=1: mt(drv,"LedgerTrace",scen,n,12*n,"leak=1 "+a,w,3,variant)
q,t=both(ld("d_event","worker",400),ld("d_event","worker",300,"stopearly=1"),ld("d_event","worker",150,"cbstop=1"),ld("d_event","worker",150,"refuse=1"),
         ld("d_net","server",250,"end=4 cl=12"),ld("d_net","server",200,"cl=6 early=1 cbcmd=1 cbstop=1"),ld("d_net","server",150,"nostart=1 np=2"),ld("d_net","server",150,"bfail=1 np=3 cl=3"),ld("d_net","server",150,"afail=1 cl=8"),ld("d_net","server",200,"cmds=1 nt=2 ops=6"),ld("d_net","sstop",300,"a=3"),ld("d_net","sstop",200,"","select"),
         ld("d_net","client",300,"ns=2"),ld("d_net","client",200,"ns=0 maxtry=9 ctl=14"),ld("d_net","client",200,"ns=0 drop=1"),ld("d_net","client",150,"","select"),
         ld("d_net","conn",250,"ns=2 end=4 ctlshut=1"),ld("d_net","conn",200,"ns=1 end=3 shutp=4"),ld("d_net","conn",150,"ns=2 end=2 eagain=1","plain"),
         ld("d_event","looper",250),ld("d_event","looper",200,"tm=1"),ld("d_event","looper",150,"","select"),ld("d_event","lstop",200),
         ld("d_core","pipes",150),ld("d_core","pipes",100,"","plain"),ld("d_core","threads",300),ld("d_core","packet",200,"ops=40"),ld("d_core","ringq_int",150,"ops=60"),ld("d_core","ringq_str",150,"ops=60"),ld("d_crypt","addr",150),ld("d_core","period_mt",100),
         ld("d_ring","ring",200,"ops=60 profile=3"),ld("d_ring","ring",200,"ops=60 profile=4 short=0"),ld("d_ring","ring",100,"ops=60 profile=1","plain"),ld("d_lfq","lfs4",200,"mixed=1 ops=3"),ld("d_log","logs",200),ld("d_log","logs",200,"fail=1"),
         ld("d_crypt","aes",40),ld("d_crypt","dh",40),ld("d_crypt","xors",40))
plan("C42",q,t,models=[M("OwnMC")],note="the scenarios of the other properties with the ledger kept: every allocation of the library, every descriptor and thread, until all objects are destroyed")
q,t=both(ap("d_cl","ClientAppTrace","ecli",150,"mem=1"),ap("d_cl","ClientAppTrace","ccli",150,"mem=1"),ap("d_cl","ClientAppTrace","ecli",1200),ap("d_cl","ClientAppTrace","ccli",1200),ap("d_cl","ClientAppTrace","ecli",300,"ops=60"),ap("d_cl","ClientAppTrace","ccli",300,"ops=60"))
plan("C43",q,t,note="both samples' main in the simulated system, lines typed before and after the connection stands, servers that refuse first, send pieces and joined messages of every size, close, half close and reset; end of input")
q,t=both(seqruns("d_sock","SockTrace","sock",3000,60000),seqruns("d_sock","SockTrace","sock",800,10000,"ops=200"),mt("d_sock","SockTrace","prep",800,8000))
plan("C44",q,t,note="random histories of socket_api calls over up to seven stream and datagram sockets with failing system calls, and a server with clients whose sockets are inspected as they are handed out; settings and results compared with what the simulated system holds")
