// Clock-by-clock driver of the example SoC (vlib/elab_soc.py).
// FAKE: plays the CPU on the bus.  REAL: observes the CPU's bus.
// It only drives inputs and records what happened; the oracles are in
// vlib/checks_soc.py (FAKE) and in soc_run_real below (REAL).
#include DUT_CC
#include <cstdio>
#include <cstdarg>
#include <deque>
#include <set>
#include <map>
#include "iss.h"
namespace D = cxxrtl_design;

enum { OP_WAIT=0, OP_XFER, OP_RST, OP_GPIO, OP_RX, OP_MOD, OP_IRQ };
struct Op { u32 kind, a, b, c; };
// change of an observed output: signal, value from clock t on
enum { S_IRQ=0, S_TIRQ, S_SIRQ, S_LEDS, S_GPO, S_GPOE, S_TX, S_STRAY, S_ORIRQ, S_N };
struct Ev { u32 t, sig, val, pad; };
struct Txn { u32 op, s, a, data; };

static std::vector<Ev> evs; static std::vector<Txn> txns;
static std::unique_ptr<D::p_sentinel> dut;

struct Rx { // background serial transmitter
  bool on=false; u32 byte=0,bit=1250,t0=0;
  bool level(u32 t){ if(!on) return true; u32 k=(t-t0)/bit; if(k>=10){on=false;return true;}
    return k==0?false:k==9?true:(byte>>(k-1))&1; }
};

static u32 rs; static u32 rnd(){ rs^=rs<<13; rs^=rs>>17; rs^=rs<<5; return rs; }

static u32 last[S_N];
static void see(u32 t,u32 sig,u32 v){ if(last[sig]!=v){ last[sig]=v; evs.push_back({t,sig,v,0}); } }
static void observe(u32 t){
  auto&d=*dut; u32 q=d.p_irq.get<bool>(),ti=d.p_tirq.get<bool>(),si=d.p_sirq.get<bool>();
  see(t,S_IRQ,q); see(t,S_TIRQ,ti); see(t,S_SIRQ,si); see(t,S_ORIRQ,q==(ti|si));
  see(t,S_LEDS,d.p_leds.get<u32>()); see(t,S_GPO,d.p_gpo.get<u32>()); see(t,S_GPOE,d.p_gpoe.get<u32>());
  see(t,S_TX,d.p_tx.get<bool>());
}
static void fresh(u32 seed){
  dut.reset(new D::p_sentinel()); evs.clear(); txns.clear(); rs=seed*2654435761u|1;
  for(u32 i=0;i<S_N;i++) last[i]=~0u;
  dut->p_clk.set<bool>(false); dut->p_rst.set<bool>(false); dut->p_rx.set<bool>(true); dut->p_gpi.set<u32>(0);
}

#ifndef REAL
// Returns the number of clocks.  Ops' clocks: begin[i] = first clock of op i.
extern "C" u32 soc_run(const Op*ops,u32 n,u32 seed,u32 maxclk,u32*begin){
  fresh(seed); auto&d=*dut; u32 t=0; Rx rx; u32 lastrst=0; bool rst=false;
  auto idle=[&]{ d.p_stb.set<bool>(false); d.p_cyc.set<bool>(false);
    u32 r=rnd(); if(r&1){ d.p_adr.set<u32>(rnd()&0x3fffffff); d.p_dat__w.set<u32>(rnd()); d.p_sel.set<u32>(r>>4&15); d.p_we.set<bool>(r>>9&1);} };
  // one clock with the inputs already set; returns ack
  bool active=false;
  auto clock=[&]{ d.p_rst.set<bool>(rst); d.p_rx.set<bool>(rx.level(t)); d.step(); observe(t);
    bool ack=d.p_ack.get<bool>(); u32 dr=d.p_dat__r.get<u32>(); see(t,S_STRAY,ack&&!active);
    if(ack&&active) txns.back().data=dr;
    d.p_clk.set<bool>(true); d.step(); d.p_clk.set<bool>(false); t++; if(rst) lastrst=t; return ack&&active; };
  idle();
  for(u32 i=0;i<n;i++){
    begin[i]=t; const Op&o=ops[i]; if(t>=maxclk) { for(;i<n;i++) begin[i]=t; break; }
    switch(o.kind){
    case OP_WAIT: for(u32 k=0;k<o.a;k++){ idle(); clock(); } break;
    case OP_RST: rx.on=false; rst=true; for(u32 k=0;k<o.a;k++){ idle(); clock(); } rst=false; break;
    case OP_GPIO: d.p_gpi.set<u32>(o.a&255); break;
    case OP_RX: while(rx.on){ idle(); clock(); } begin[i]=t; rx.on=true; rx.byte=o.a; rx.bit=o.b; rx.t0=t; break;
    case OP_MOD: while((t-lastrst)%o.a!=o.b%o.a){ idle(); clock(); } break;
    case OP_IRQ: for(u32 k=0;k<o.a&&!last[S_IRQ];k++){ idle(); clock(); } break;
    case OP_XFER: {
      u32 rat=o.c>>8; bool hit=false;
      txns.push_back({i,t,~0u,0}); active=true;
      d.p_adr.set<u32>(o.a&0x3fffffff); d.p_we.set<bool>(o.a>>31); d.p_dat__w.set<u32>(o.b); d.p_sel.set<u32>(o.c&15);
      d.p_stb.set<bool>(true); d.p_cyc.set<bool>(true);
      for(u32 k=0;k<64;k++){
        if(rat&&k+1==rat){ rx.on=false; rst=true; }
        u32 at=t; bool a=clock();
        if(rst){ rst=false; hit=true; txns.back().a=~1u; break; }
        if(a){ txns.back().a=at; break; }
      }
      active=false; idle(); (void)hit; clock(); break; }
    }
  }
  active=false; for(int k=0;k<8;k++){ idle(); clock(); }
  return t;
}
#else
struct Res { u32 status, insns, irqs, traps, loads, stores, io, resets, clocks, seen; char msg[600]; };
struct C1 { Model m; u8 st; u32 word; };   // st 0 fetch expected, 1 fetched, 2 data access expected
static u32 *ramp=nullptr; static u32 ramdepth=0;
static cxxrtl::debug_items items;

static u32 lanes(u32 sel){ u32 m=0; for(int i=0;i<4;i++) if(sel>>i&1) m|=0xffu<<(8*i); return m; }
static bool fits(const C1&c,bool we,u32 adr,u32 sel,u32 dat){
  if(c.st==0) return !we&&adr==c.m.pc>>2&&sel==15;
  u32 s=acc_sel(c.m.f3,c.m.ea);
  if(adr!=c.m.ea>>2||sel!=s) return false;
  if(c.m.exp==E_LOAD) return !we;
  return we&&!(((c.m.sdata<<((c.m.ea&3)*8))^dat)&lanes(s));
}
// The program runs in the SoC's RAM on the SoC's CPU; every bus transaction is
// compared with the reference model, every RAM read with what was written.
extern "C" void soc_run_real(const u32*prog,u32 nw,u32 nbytes,const Op*ops,u32 n,u32 seed,u32 maxclk,u32 wb,Res*R){
  memset(R,0,sizeof *R); fresh(seed); auto&d=*dut;
  #define BAD(...) do{ snprintf(R->msg,sizeof R->msg,__VA_ARGS__); R->status=1; R->clocks=t; return; }while(0)
  u32 t=0;
  { // the RAM: the memory that holds the marker the check put into the ROM image
    cxxrtl::debug_items it; 
    #if defined(CXXRTL_DEBUG_INFO_TWO_ARGS)
    d.debug_info(it,"");
    #else
    d.debug_info(&it,nullptr,"");
    #endif
    ramp=nullptr;
    for(auto&kv:it.table) for(auto&p:kv.second) if(p.type==cxxrtl::debug_item::MEMORY&&p.width==32&&p.depth==nbytes/4&&p.curr[0]==0x5EC0DE13&&p.curr[1]==0x1234ABCD) ramp=p.curr;
    if(!ramp){ snprintf(R->msg,sizeof R->msg,"the RAM does not hold the program image it was given"); R->status=1; return; }
    for(u32 i=0;i<nbytes/4;i++) ramp[i]=i<nw?prog[i]:0x13;
  }
  std::vector<u32> ram(ramp,ramp+nbytes/4); bool taint=false;
  std::vector<C1> cs,nx;
  auto reset=[&]{ cs.clear(); for(int p=0;p<2;p++){ C1 c; memset(&c,0,sizeof c); c.m.mpie=p; cs.push_back(c); } };
  reset(); bool known=false; // CSRs other than mstatus/mie are set by the program before use
  Rx rx; u32 oi=0, nextop=0; bool rst=false; u32 rleft=0;
  bool active=false,twe=false; u32 tadr=0,tsel=0,tdat=0,ts=0,resync=~0u; bool hi=false,lo=false,win=false; u32 lastt=0; (void)known;
  while(t<maxclk){
    while(oi<n&&t>=nextop&&!rleft){ const Op&o=ops[oi];
      if(o.kind==OP_RX&&rx.on){ rx.level(t); if(rx.on) break; }
      oi++;
      if(o.kind==OP_WAIT) nextop=t+o.a;
      else if(o.kind==OP_RST){ rleft=o.a; rx.on=false; }
      else if(o.kind==OP_GPIO) d.p_gpi.set<u32>(o.a&255);
      else if(o.kind==OP_RX){ rx.on=true; rx.byte=o.a; rx.bit=o.b; rx.t0=t; } }
    if(!rleft&&resync!=~0u){ ram[resync]=ramp[resync]; resync=~0u; }
    rst=rleft>0; d.p_rst.set<bool>(rst); d.p_rx.set<bool>(rx.level(t)); d.step();
    bool stb=d.p_stb.get<bool>()&&d.p_cyc.get<bool>(), we=d.p_we.get<bool>(), ack=d.p_ack.get<bool>(), irq=d.p_irq.get<bool>();
    u32 adr=d.p_adr.get<u32>(),sel=d.p_sel.get<u32>(),dat=d.p_dat__w.get<u32>(),dr=d.p_dat__r.get<u32>();
    if(win) (irq?hi:lo)=true;
    if(stb&&!active&&!rst){ // new transaction
      active=true; twe=we; tadr=adr; tsel=sel; tdat=dat; ts=t; lastt=t;
      if(!win){ hi=irq; lo=!irq; }
      nx.clear(); u32 ex=0;
      auto consider=[&](const C1&c){ ex=c.st?c.m.ea:c.m.pc; if(!fits(c,we,adr,sel,dat)) return; for(auto&o:nx) if(o.st==c.st&&!memcmp(&o.m,&c.m,sizeof(Model))) return; nx.push_back(c); };
      for(auto&c:cs){
        if(c.st!=1){ consider(c); continue; }
        bool en=c.m.mie&&c.m.meie;
        if(en&&hi){ C1 k=c; take_irq(k.m); k.st=0; consider(k); }
        if(!(en&&!lo)){ bool rm=reads_mip(c.word);
          for(int mip=0;mip<2;mip++){ if(mip?!hi:!lo) continue; if(!rm&&mip!=(hi?1:0)) continue;
            C1 k=c; exec(k.m,c.word,mip); k.st=k.m.exp==E_FETCH?0:2; consider(k); } }
      }
      if(nx.empty()) BAD("clock %u: after insn %08x at pc %08x (irq hi=%d lo=%d): %s of %08x sel=%x data=%08x does not fit the model (e.g. address %08x)",t,cs[0].word,cs[0].m.lastpc,hi,lo,we?"write":"read",adr<<2,sel,dat,ex);
      cs.swap(nx);
      for(size_t i=1;i<cs.size();i++) if((cs[i].st==0)!=(cs[0].st==0)){ R->status=2; R->clocks=t; return; }
      if(cs.size()>32){ R->status=2; R->clocks=t; return; }
      if(cs[0].st==0){ R->insns++; R->irqs+=cs[0].m.cls==C_IRQ; R->traps+=cs[0].m.trapped; R->seen|=1u<<cs[0].m.cls; win=true; hi=lo=false; (irq?hi:lo)=true; }
    }
    if(stb&&active&&!rst&&ack){
      lastt=t; u32 a=tadr<<2;
      if(a<nbytes){
        u32 l=lanes(tsel);
        if(twe) ram[tadr]=(ram[tadr]&~l)|(tdat&l);
        else if(!taint&&((dr^ram[tadr])&l)) BAD("clock %u: read of RAM %08x returns %08x, expected %08x (lanes %x)",t,a,dr,ram[tadr],tsel);
      } else if(a<0x02000000u){ if(twe) taint=true; } else R->io++;
      for(auto&c:cs){
        if(c.st==0){ c.st=1; c.word=dr; }
        else { if(c.m.exp==E_LOAD){ load_done(c.m,dr); } c.st=0; c.m.exp=E_FETCH; } }
      if(twe) R->stores++; else R->loads++;
      active=false;
    } else if(!stb&&active&&!rst) BAD("clock %u: access to %08x dropped without acknowledge",t,tadr<<2);
    if(rst&&stb&&we&&adr<nbytes/4) resync=adr;   // cut off by the reset: may or may not have happened
    if(rst){ active=false; win=false; rleft--; lastt=t; if(!rleft){ R->resets++; reset(); } }
    if(t-lastt>200){
      u32 a=tadr<<2;
      bool mapped= a<0x02000000u+16 || (wb? (a>=0x40000000u&&a<0xC0000000u) : ((a>=0x02800000u&&a<0x02800010u)||(a>=0x03000000u&&a<0x03000010u)));
      if(active&&mapped) BAD("clock %u: access to %08x is not acknowledged",t,a);
      if(!active) BAD("clock %u: the CPU stopped making bus accesses",t);
      break; // unmapped address: nobody answers
    }
    d.p_clk.set<bool>(true); d.step(); d.p_clk.set<bool>(false); t++;
  }
  if(!taint) for(u32 i=0;i<nbytes/4;i++) if(ramp[i]!=ram[i]&&!(active&&tadr==i)) BAD("RAM word %08x is %08x at the end, expected %08x",i*4,ramp[i],ram[i]);
  R->clocks=t;
}
#endif
extern "C" { u32 soc_nev(){return evs.size();} const Ev*soc_ev(){return evs.data();}
u32 soc_ntx(){return txns.size();} const Txn*soc_tx(){return txns.data();} }
