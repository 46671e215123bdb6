// Cycle-level test engine: drives the compiled design through its top-level
// ports only (clk, rst, irq, Wishbone bus, optional RVFI trace), plays the bus
// slave, and runs a reference-model lock-step over the observed transactions.
#include DUT_CC
#include "iss.h"
#include <cstdio>
#include <cstdarg>
#include <string>
#include <algorithm>
#include <map>
#include <memory>

namespace D = cxxrtl_design;

// ---------------------------------------------------------------- interface
struct Step {            // one fetched instruction slot
  u32 insn, ldata;
  u64 irq_wave;          // irq level k cycles after this slot's fetch STB rise (bit 63 then held)
  u16 fwait, mwait;      // extra wait states for the fetch / the data access
  int16_t rst_at; u8 rst_len; u8 flags;  // 1: fetch from memory, 2: load data from memory
  u32 pad;
};
enum { F_MEMFETCH=1, F_LDMEM=2 };
enum { CF_JUNK=1, CF_MEMFILL=2, CF_NOPRO=4, CF_NOEPI=8, CF_LOG=16, CF_WAVE=32, CF_RVFI=64, CF_TIMING=128,
       CF_NOMODEL=256, CF_RETLOG=512,
       CF_NORSTCHK=2048, CF_NOCSRINIT=4096, CF_IRQPRO=8192,
       CF_STOPPC=16384, CF_MORE=32768, CF_WAVERV=65536,
       CF_UNDEF=262144,       // a reset leaves registers and mtvec/mscratch/mepc undefined
       CF_IDLEACK=131072 };   // acknowledge lines not quiet while no access is in progress
struct CaseHdr {
  u32 nsteps, nmem, flags, seed;
  u32 xinit[32];
  u32 csr_init[6];       // mstatus mie mtvec mscratch mepc mcause
  u32 start_pc, dump_regs, dump_csrs;
  u32 rst0_len, max_cycles, max_amb;
  u32 pro_fwait, epi_fwait;
};
enum { V_OK=0, V_VIOL=1, V_INCONC=2 };
enum { VK_NONE=0, VK_FLOW=1, VK_MEMADDR=2, VK_STDATA=3, VK_DUMPREG=4, VK_DUMPCSR=5, VK_EXTRA=6,
       VK_PROTO=7, VK_TIMEOUT=8, VK_TIMING=9, VK_RVFI=10, VK_RESET=11, VK_RESETCSR=12 };
struct Result {
  i32 status, kind; u32 sub;
  i32 step; u32 phase; u32 insn; u32 slotreg;
  u32 cls;
  u32 seen;              // bit mask of dynamic classes of body instructions up to and including the failing one
  u32 pad;
  u64 cycles; u32 insns, fetches, loads, stores, irqs, traps, resets, forks, maxwait, txns;
  u32 clscnt[32];
  u32 rvfi_records;
  u32 nlog, nwave, nret;
  char msg[900];
};

enum { PH_RST=0, PH_PRO=1, PH_BODY=2, PH_EPI=3, PH_DONE=4 };
struct Slot { Step s; u8 phase; i32 idx; u32 reg; };

struct Cand { Model m; u8 st; u32 word; std::shared_ptr<std::vector<Retire>> tr; Retire cur; };

static u32 mix(u32 a,u32 b){ u64 h=a*0x9E3779B97F4A7C15ull^((u64)b*0xC2B2AE3D27D4EB4Full+0x165667B19E3779F9ull); h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return (u32)h; }

struct Mem {  // sparse word memory, open addressing
  std::vector<u32> key,val; std::vector<u8> used; size_t n=0,mask;
  u32 seed; bool fill;
  Mem():key(4096),val(4096),used(4096,0),mask(4095),seed(0),fill(false){}
  void clear(){ std::fill(used.begin(),used.end(),0); n=0; }
  size_t find(u32 a){ size_t i=(a*2654435761u>>12)&mask; while(used[i]&&key[i]!=a) i=(i+1)&mask; return i; }
  void grow(){ std::vector<u32> k,v; for(size_t i=0;i<=mask;i++) if(used[i]){k.push_back(key[i]);v.push_back(val[i]);}
    size_t c=(mask+1)*2; key.assign(c,0);val.assign(c,0);used.assign(c,0);mask=c-1;n=0; for(size_t i=0;i<k.size();i++) put(k[i],v[i]); }
  u32 get(u32 a){ size_t i=find(a); if(used[i]) return val[i]; return fill?mix(seed,a):0; }
  void put(u32 a,u32 v){ size_t i=find(a); if(!used[i]){ if(n*2>mask){grow();i=find(a);} used[i]=1;key[i]=a;n++; } val[i]=v; }
};

static inline u32 LW(u32 rd){ return 0x03u|(2u<<12)|(rd<<7); }
static inline u32 SW(u32 rs2,u32 imm){ return 0x23u|(2u<<12)|(rs2<<20)|((imm&31)<<7)|((imm>>5)<<25); }
static inline u32 CSRRW(u32 rd,u32 c,u32 rs1){ return 0x73u|(1u<<12)|(rd<<7)|(rs1<<15)|(c<<20); }
static inline u32 CSRRS(u32 rd,u32 c,u32 rs1){ return 0x73u|(2u<<12)|(rd<<7)|(rs1<<15)|(c<<20); }
static inline u32 JALR(u32 rd,u32 rs1,u32 imm){ return 0x67u|(rd<<7)|(rs1<<15)|(imm<<20); }
static const u32 csr_addr[7]={0x300,0x304,0x305,0x340,0x341,0x342,0x344};

struct Engine {
  std::unique_ptr<D::p_sentinel> dutp;
  const CaseHdr*h; const Step*steps; const u32*memi;
  Result R; Mem mem;
  static u32 wexp(u16 v){ return v>=0xFFF0?0x10200u+v:v; }
  std::vector<Slot> q; size_t qi;
  std::vector<Cand> cands, tmp;
  std::vector<u32> log; std::vector<u64> wave;
  std::vector<Retire> rv; std::vector<Retire> finaltr;
  u32 rng;
  u32 rnd(){ rng^=rng<<13; rng^=rng>>17; rng^=rng<<5; return rng; }

  void fail(int st,int kind,const char*fmt,...){
    if(R.status) return;
    R.status=st; R.kind=kind; va_list ap; va_start(ap,fmt); vsnprintf(R.msg,sizeof R.msg,fmt,ap); va_end(ap);
    attribute();
  }
  void attribute(){
    // the slot of the last fetched instruction
    if(curslot>=0&&curslot<(int)q.size()){ R.step=q[curslot].idx; R.phase=q[curslot].phase; R.insn=q[curslot].s.insn; R.slotreg=q[curslot].reg; }
    else { R.step=-1; R.phase=PH_RST; }
    if(!cands.empty()) R.cls=cands[0].m.cls;
  }
  int curslot;

  void addslot(u32 insn,u32 ld,u8 phase,u32 reg,u16 fw){ Slot s; memset(&s,0,sizeof s); s.s.insn=insn; s.s.ldata=ld; s.s.fwait=fw; s.phase=phase; s.idx=-1; s.reg=reg; if((h->flags&CF_IRQPRO)&&phase<PH_BODY) s.s.irq_wave=~0ull; q.push_back(s); }
  void build(size_t from_step,bool reset_check){
    q.clear(); qi=0; curslot=-1;
    u16 pw=h->pro_fwait, ew=h->epi_fwait;
    if(!(h->flags&CF_NOPRO)){
      if(reset_check && !(h->flags&CF_NORSTCHK)){
        addslot(SW(0,0),0,PH_RST,0,pw);
        for(int k: {0,1,5}){ addslot(CSRRS(1,csr_addr[k],0),0,PH_RST,32+k,pw); addslot(SW(1,0),0,PH_RST,32+k,pw); }
      }
      if(!(h->flags&CF_NOCSRINIT)) for(int k: {2,3,4,5,1,0}){ addslot(LW(1),h->csr_init[k],PH_PRO,1,pw); addslot(CSRRW(0,csr_addr[k],1),0,PH_PRO,32+k,pw); }
      addslot(LW(1),h->start_pc,PH_PRO,1,pw); addslot(JALR(0,1,0),0,PH_PRO,0,pw);
      for(u32 i=1;i<32;i++) addslot(LW(i),h->xinit[i],PH_PRO,i,pw);
    }
    for(size_t i=from_step;i<h->nsteps;i++){ Slot s; s.s=steps[i]; s.phase=PH_BODY; s.idx=i; s.reg=0; q.push_back(s); }
    if(!(h->flags&CF_NOEPI)){
      for(u32 i=0;i<32;i++) if(h->dump_regs>>i&1) addslot(SW(i,i*4),0,PH_EPI,i,ew);
      for(u32 k=0;k<7;k++) if(h->dump_csrs>>k&1){ addslot(CSRRS(1,csr_addr[k],0),0,PH_EPI,32+k,ew); addslot(SW(1,0x80+k*4),0,PH_EPI,32+k,ew); }
    }
  }
  void reset_model(){
    cands.clear();
    for(int mpie=0;mpie<2;mpie++){ Cand c; memset(&c.m,0,sizeof c.m); memset(&c.cur,0,sizeof c.cur); c.m.mpie=mpie; if(h->flags&CF_UNDEF){ c.m.ux=~1u; c.m.uc=7; } c.st=0; c.word=0; if(h->flags&(CF_RVFI|CF_RETLOG)) c.tr=std::make_shared<std::vector<Retire>>(); cands.push_back(c); }
  }
  static bool same(const Cand&a,const Cand&b){ return a.st==b.st && !memcmp(&a.m,&b.m,sizeof(Model)); }

  void retire_begin(Cand&n,const Model&before,bool irq,int mipv){
    if(!(h->flags&(CF_RVFI|CF_RETLOG))) return;
    Retire r; memset(&r,0,sizeof r);
    u32 w=n.word, op=w&0x7f; r.insn=w; r.pc=before.pc; r.pcn=n.m.pc; r.trap=n.m.trapped;
    r.rs1=(w>>15)&31; r.rs2=(w>>20)&31; r.rd=(w>>7)&31; r.rs1v=before.x[r.rs1]; r.rs2v=before.x[r.rs2];
    r.rdv=n.m.x[r.rd];
    r.csr_before[K_MSCRATCH]=before.mscratch; r.csr_before[K_MCAUSE]=before.mcause; r.csr_before[K_MIE]=before.meie<<11;
    r.csr_before[K_MSTATUS]=0x1800|before.mpie<<7|before.mie<<3; r.csr_before[K_MTVEC]=before.mtvec; r.csr_before[K_MEPC]=before.mepc;
    r.csr_w[K_MSCRATCH]=n.m.mscratch; r.csr_w[K_MCAUSE]=n.m.mcause; r.csr_w[K_MIE]=n.m.meie<<11;
    r.csr_w[K_MSTATUS]=0x1800|n.m.mpie<<7|n.m.mie<<3; r.csr_w[K_MTVEC]=n.m.mtvec; r.csr_w[K_MEPC]=n.m.mepc;
    r.rcls=n.m.cls;
    if(irq) r.intr=2;            // 2: instruction replaced by an interrupt entry
    (void)op;(void)mipv;
    n.cur=r;
    if(n.m.exp==E_FETCH) push(n);
  }
  void push(Cand&n){
    if(!(h->flags&(CF_RVFI|CF_RETLOG))) return;
    auto v=std::make_shared<std::vector<Retire>>(); 
    if(n.tr.use_count()==1) { n.tr->push_back(n.cur); return; }
    *v=*n.tr; v->push_back(n.cur); n.tr=v;
  }

  void describe(char*b,size_t n,const Cand&c){
    if(c.st==0) snprintf(b,n,"fetch at pc=%08x",c.m.pc);
    else if(c.m.exp==E_LOAD) snprintf(b,n,"load ea=%08x adr=%08x sel=%x",c.m.ea,c.m.ea>>2,acc_sel(c.m.f3,c.m.ea));
    else { u32 s=acc_sel(c.m.f3,c.m.ea); u32 d=c.m.sdata<<((c.m.ea&3)*8); snprintf(b,n,"store ea=%08x adr=%08x sel=%x data=%08x",c.m.ea,c.m.ea>>2,s,d); }
  }
  static u32 lanes(u32 sel){ u32 m=0; for(int i=0;i<4;i++) if(sel>>i&1) m|=0xffu<<(8*i); return m; }
  // 0 match; else mismatch kind
  int match(const Cand&c,bool we,u32 adr,u32 sel,u32 dat){
    if(c.st==0){ if(we) return VK_EXTRA; if(adr!=c.m.pc>>2||sel!=15) return VK_FLOW; return 0; }
    if(c.m.exp==E_LOAD){ if(we) return VK_EXTRA; if(adr!=c.m.ea>>2||sel!=acc_sel(c.m.f3,c.m.ea)) return VK_MEMADDR; return 0; }
    u32 s=acc_sel(c.m.f3,c.m.ea);
    if(!we) return VK_EXTRA;
    if(adr!=c.m.ea>>2||sel!=s) return VK_MEMADDR;
    u32 d=c.m.sdata<<((c.m.ea&3)*8);
    if(!c.m.anyd&&((d^dat)&lanes(s))) return VK_STDATA;
    return 0;
  }

  void addcand(std::vector<Cand>&v,const Cand&c){ for(auto&o:v) if(same(o,c)) return; v.push_back(c); }

  // A new transaction starts: advance every candidate and keep those that fit.
  void resolve(bool we,u32 adr,u32 sel,u32 dat,bool irq_hi,bool irq_lo){
    tmp.clear();
    char exps[400]; exps[0]=0; int kind=0;
    bool uniq_exec=true; (void)uniq_exec;
    std::vector<Cand> kept; int nk=0;
    auto consider=[&](Cand&n){
      if(n.m.poison){ fail(V_INCONC,0,"depends on a value undefined after reset"); addcand(kept,n); return; }
      int k=match(n,we,adr,sel,dat);
      if(!k){ addcand(kept,n); nk++; return; }
      if(n.st!=1&&curslot>=0&&q[curslot].phase==PH_BODY&&(n.word!=0x13||n.m.cls!=C_ALU)) R.seen|=1u<<n.m.cls;
      if(!kind) kind=k; else if(k!=kind && k==VK_STDATA) kind=k;
      size_t l=strlen(exps); if(l<300){ if(l){ strcat(exps," | "); l+=3; } describe(exps+l,sizeof exps-l,n); }
    };
    for(auto&c:cands){
      nk=0;
      if(c.st!=1){ Cand n=c; consider(n); continue; }
      bool en=c.m.mie&&c.m.meie;
      if(en&&irq_hi){ Cand n=c; take_irq(n.m); n.st=0; retire_begin(n,c.m,true,0); consider(n); }
      if(!(en&&!irq_lo)){
        bool rm=reads_mip(c.word);
        for(int mip=0;mip<2;mip++){
          if(mip?!irq_hi:!irq_lo) continue;
          if(!rm && mip!=(irq_hi?1:0)) continue;
          Cand n=c; exec_u(n.m,c.word,mip); n.st=n.m.exp==E_FETCH?0:2; retire_begin(n,c.m,false,mip); consider(n);
        }
      }
      if(nk>1) R.pad++;   // either interrupt outcome explains the observation
    }
    if(kept.empty()){
      if(curslot>=0 && q[curslot].phase==PH_RST) kind= kind==VK_STDATA?VK_RESETCSR:(kind==VK_FLOW?VK_RESET:kind);
      else if(curslot<0) kind=VK_RESET;
      else if(kind==VK_STDATA && q[curslot].phase==PH_EPI) kind= q[curslot].reg<32?VK_DUMPREG:VK_DUMPCSR;
      u32 lastw = cands.empty()?0:cands[0].word, lastpc=cands.empty()?0:cands[0].m.lastpc;
      fail(V_VIOL,kind,"after insn %08x (pc %08x, irq window hi=%d lo=%d): expected %s; observed %s adr=%08x(byte %08x) sel=%x%s%08x",
        lastw,lastpc,irq_hi,irq_lo,exps,we?"write":"read",adr,adr<<2,sel,we?" data=":" dat_w=",dat);
      if(q.size()&&curslot>=0) R.cls=cands.empty()?0:cands[0].m.cls;
      return;
    }
    cands.swap(kept);
    if(cands.size()>1) R.forks++;
    if(cands.size()>(h->max_amb?h->max_amb:32)) fail(V_INCONC,0,"too many candidate histories");
    for(size_t i=1;i<cands.size();i++) if((cands[i].st==0)!=(cands[0].st==0)) { fail(V_INCONC,0,"ambiguous access kind"); return; }
  }

  static u32 limit(const Model&m){ // documented worst ack-to-ack cycles with single-wait memory
    switch(m.cls){
      case C_ALU: case C_LUI: return 4;
      case C_SHI: return m.shamt?7+2*m.shamt:9;
      case C_SHR: return m.shamt?7+2*m.shamt:10;
      case C_JAL: case C_JALR: return 7;
      case C_BNT: return 7; case C_BT: return 8;
      case C_LOAD: return 9; case C_STORE: return 10;
      case C_CSRRO: case C_CSR: return 10;
      case C_MRET: return 8;
      case C_AUIPC: return 7;
      // no-ops: nothing to wait for beyond what a simple instruction needs
      case C_FENCE: case C_WFI: return 8;
      // entry: 5 clocks from the detection, fetch and decode overlapped
      case C_ECALL: case C_EBREAK: case C_ILLEGAL: case C_IRQ: return 8;
      case C_CSRILL: return 9;
      case C_MISJMP: return 12; case C_MISLD: case C_MISST: return 11;
    }
    return 69;         // README: no instruction takes longer
  }

  bool rvhi=false, rvlo=false;   // levels of the line since the previous record
  struct RvZero { u64 wd[20], wm[20]; };   // write data and masks of all CSRs
  std::vector<RvZero> rvw;
  void rvfi_sample(bool irq){
#ifdef HAS_RVFI
    auto&d=*dutp;
    if(d.p_rvfi____valid.get<u32>()){
      Retire r; memset(&r,0,sizeof r);
      r.insn=d.p_rvfi____insn.get<u32>(); r.pc=d.p_rvfi____pc__rdata.get<u32>(); r.pcn=d.p_rvfi____pc__wdata.get<u32>();
      r.rd=d.p_rvfi____rd__addr.get<u32>(); r.rdv=d.p_rvfi____rd__wdata.get<u32>();
      r.rs1=d.p_rvfi____rs1__addr.get<u32>(); r.rs2=d.p_rvfi____rs2__addr.get<u32>();
      r.rs1v=d.p_rvfi____rs1__rdata.get<u32>(); r.rs2v=d.p_rvfi____rs2__rdata.get<u32>();
      r.maddr=d.p_rvfi____mem__addr.get<u32>(); r.mrmask=d.p_rvfi____mem__rmask.get<u32>(); r.mwmask=d.p_rvfi____mem__wmask.get<u32>();
      r.mrdata=d.p_rvfi____mem__rdata.get<u32>(); r.mwdata=d.p_rvfi____mem__wdata.get<u32>();
      r.trap=d.p_rvfi____trap.get<u32>(); r.intr=d.p_rvfi____intr.get<u32>();
      #define CSRV(i,n) r.csr_before[i]=d.p_rvfi____csr____##n##____rdata.get<u32>(); r.csr_w[i]=d.p_rvfi____csr____##n##____wdata.get<u32>();
      CSRV(K_MSCRATCH,mscratch) CSRV(K_MCAUSE,mcause) CSRV(K_MIP,mip) CSRV(K_MIE,mie) CSRV(K_MSTATUS,mstatus) CSRV(K_MTVEC,mtvec) CSRV(K_MEPC,mepc)
      u64 ro=0;
      #define ROZ(n) ro|=d.p_rvfi____csr____##n##____rdata.get<u64>();
      ROZ(mvendorid) ROZ(marchid) ROZ(mimpid) ROZ(mhartid) ROZ(mconfigptr) ROZ(misa) ROZ(mstatush) ROZ(mcountinhibit)
      ROZ(mtval) ROZ(mcycle) ROZ(minstret) ROZ(mhpmcounter3) ROZ(mhpmevent3)
      if(ro) fail(V_VIOL,VK_RVFI,"read-only-zero CSR reported nonzero");
      if(rvhi!=rvlo&&r.csr_before[K_MIP]!=(rvhi?0x800u:0u)) fail(V_VIOL,VK_RVFI,"mip reported as %08x, interrupt line constantly %d",r.csr_before[K_MIP],rvhi);
      rvhi=rvlo=false;
      RvZero z;
      #define ZW(i,n) z.wd[i]=d.p_rvfi____csr____##n##____wdata.get<u64>(); z.wm[i]=d.p_rvfi____csr____##n##____wmask.get<u64>();
      ZW(0,mscratch) ZW(1,mcause) ZW(2,mip) ZW(3,mie) ZW(4,mstatus) ZW(5,mtvec) ZW(6,mepc)
      ZW(7,mvendorid) ZW(8,marchid) ZW(9,mimpid) ZW(10,mhartid) ZW(11,mconfigptr) ZW(12,misa) ZW(13,mstatush) ZW(14,mcountinhibit)
      ZW(15,mtval) ZW(16,mhpmevent3) ZW(17,mcycle) ZW(18,minstret) ZW(19,mhpmcounter3)
      rvw.push_back(z);
      u64 rm=0;
      #define RM32(n) rm|=d.p_rvfi____csr____##n##____rmask.get<u32>()^0xffffffffu;
      #define RM64(n) rm|=~d.p_rvfi____csr____##n##____rmask.get<u64>();
      RM32(mscratch) RM32(mcause) RM32(mip) RM32(mie) RM32(mstatus) RM32(mtvec) RM32(mepc)
      RM32(mvendorid) RM32(marchid) RM32(mimpid) RM32(mhartid) RM32(mconfigptr) RM32(misa) RM32(mstatush) RM32(mcountinhibit)
      RM32(mtval) RM32(mhpmevent3) RM64(mcycle) RM64(minstret) RM64(mhpmcounter3)
      if(rm) fail(V_VIOL,VK_RVFI,"a CSR value is not marked as valid (rmask)");
      u64 order=d.p_rvfi____order.get<u64>();
      if(order!=rv_order){ fail(V_VIOL,VK_RVFI,"rvfi order %llu, expected %llu",(unsigned long long)order,(unsigned long long)rv_order); }
      rv_order=order+1;
      if(d.p_rvfi____halt.get<u32>()||d.p_rvfi____mode.get<u32>()!=3||d.p_rvfi____ixl.get<u32>()!=1) fail(V_VIOL,VK_RVFI,"rvfi halt/mode/ixl wrong");
      rv.push_back(r);
    }
#endif
  }
  u64 rv_order=0;

  // 24-bit digest of everything the trace port shows in this clock
  u64 rvfi_digest(){
    u64 x=0xcbf29ce484222325ull;
#ifdef HAS_RVFI
    auto&d=*dutp;
    if(!d.p_rvfi____valid.get<u32>()) return 1;
    #define DG(n) x=(x^d.p_rvfi____##n.get<u64>())*0x9E3779B97F4A7C15ull; x^=x>>29;
    DG(order) DG(insn) DG(trap) DG(halt) DG(intr) DG(mode) DG(ixl) DG(rs1__addr) DG(rs2__addr) DG(rs1__rdata) DG(rs2__rdata)
    DG(rd__addr) DG(rd__wdata) DG(pc__rdata) DG(pc__wdata) DG(mem__addr) DG(mem__rmask) DG(mem__wmask) DG(mem__rdata) DG(mem__wdata)
    #define DC(n) DG(csr____##n##____rmask) DG(csr____##n##____wmask) DG(csr____##n##____rdata) DG(csr____##n##____wdata)
    DC(mscratch) DC(mcause) DC(mip) DC(mie) DC(mstatus) DC(mtvec) DC(mepc) DC(mvendorid) DC(marchid) DC(mimpid) DC(mhartid)
    DC(mconfigptr) DC(misa) DC(mstatush) DC(mcountinhibit) DC(mtval) DC(mcycle) DC(minstret) DC(mhpmcounter3) DC(mhpmevent3)
#endif
    return x&0xffffff;
  }

  int run(){
    memset(&R,0,sizeof R); R.step=-1; R.phase=PH_RST;
    log.clear(); wave.clear(); rv.clear(); rvw.clear(); finaltr.clear(); rv_order=0; rvhi=rvlo=false;
    rng=h->seed*2654435761u+12345; if(!rng) rng=1;
    u32 enrng=h->seed; (void)enrng;
    mem.clear(); mem.seed=h->seed; mem.fill=h->flags&CF_MEMFILL;
    for(u32 i=0;i<h->nmem;i++) mem.put(memi[2*i]>>2,memi[2*i+1]);
    dutp.reset(new D::p_sentinel());
    auto&d=*dutp;
    const bool nomodel=h->flags&CF_NOMODEL;
    build(0,true); reset_model();
    bool active=false; u32 tw=0; bool twe=false; u32 tadr=0,tsel=0,tdat=0; bool tfetch=false;
    bool ackp=false; bool after_ack=false; bool rst_prev=false, rst_prev_any=false;
    u64 wavecur=0; u64 wave_t0=0; bool have_slot=false;
    i32 rst_left=h->rst0_len; i32 rst_at=-1; u8 rst_len=0;
    bool irq_hi=false, irq_lo=false; bool win=false;
    u64 t=0, last_ev=0; u64 last_fack=0; u32 extra=0; bool have_fack=false;
    bool done=false; u32 waits=0; int rst_step=-1; int fetched_body=-1; int stops=0;
    d.p_clk.set<bool>(false);
    d.step();
    (void)rst_prev_any; 
    for(; t<h->max_cycles && !R.status; t++){
      // ---- drive inputs for this cycle
      u64 k=t-wave_t0-1; bool irq= have_slot ? (wavecur>>(k>63?63:k))&1 : (h->flags&CF_IRQPRO)!=0;
      bool rst=false;
      if(rst_left>0){ rst=true; }
      else if(have_slot&&rst_len&&(i64)k>=0&&(i64)k==rst_at){ rst=true; rst_left=rst_len; rst_len=0; }
      if(h->flags&CF_IDLEACK){ d.p_bus____ack.set<bool>(false); d.step(); }   // outputs of this clock
      bool ack=false; u32 datr=(h->flags&CF_JUNK)?rnd():0;
      if(active && waits>=tw){ ack=true; }
      else if((h->flags&CF_IDLEACK) && !active && !d.p_bus____stb.get<bool>() && !d.p_bus____cyc.get<bool>()) ack=rnd()>>9&1;
#ifdef HAS_EN
      // clocks in which the enable is low must not count, whatever the inputs
      d.p_en.set<bool>(false); d.p_rst.set<bool>(false);
      for(enrng=enrng*1664525u+1013904223u; enrng>>28>8; ){
        enrng=enrng*1664525u+1013904223u;
        d.p_irq.set<bool>(enrng>>27&1); d.p_bus____ack.set<bool>(enrng>>26&1); d.p_bus____dat__r.set<u32>(enrng*2654435761u);
        d.step(); d.p_clk.set<bool>(true); d.step(); d.p_clk.set<bool>(false);
      }
      d.p_en.set<bool>(true);
#endif
      d.p_rst.set<bool>(rst); d.p_irq.set<bool>(irq); d.p_bus____ack.set<bool>(ack);
      // read data is chosen below for acked reads
      if(ack && !twe){
        u32 v;
        if(tfetch&&curslot<0) v=0;
        else if(tfetch){ const Slot&s=q[curslot]; v=(s.s.flags&F_MEMFETCH)?mem.get(tadr):s.s.insn; }
        else { v = (curslot>=0&&!(q[curslot].s.flags&F_LDMEM))?q[curslot].s.ldata:mem.get(tadr);
               u32 l=lanes(tsel); if(h->flags&CF_JUNK) v=(v&l)|(datr&~l); }
        datr=v;
      }
      d.p_bus____dat__r.set<u32>(datr);
      d.step();          // settle combinational logic
      // ---- observe
      bool stb=d.p_bus____stb.get<bool>(), cyc=d.p_bus____cyc.get<bool>(), we=d.p_bus____we.get<bool>();
      u32 adr=d.p_bus____adr.get<u32>(), sel=d.p_bus____sel.get<u32>(), dat=d.p_bus____dat__w.get<u32>();
      if(h->flags&CF_WAVE){ u64 w1=stb|cyc<<1; if(stb) w1|=(u64)we<<2|(u64)sel<<4|(u64)adr<<8; if(h->flags&CF_WAVERV) w1|=rvfi_digest()<<40; wave.push_back(w1); wave.push_back(stb&&we?dat:0); }
      if(win){ if(irq) irq_hi=true; else irq_lo=true; }
      bool in_reset_shadow=rst_prev;
      if(in_reset_shadow){
        if(stb||cyc) fail(V_VIOL,VK_PROTO,"bus strobe active in the cycle after reset was sampled (cyc=%d stb=%d)",cyc,stb), R.sub=1;
        active=false;
      }
      if(!R.status){
      if(stb&&!cyc) { fail(V_VIOL,VK_PROTO,"STB without CYC"); R.sub=2; }
      else if(cyc&&!stb&&after_ack) { fail(V_VIOL,VK_PROTO,"CYC not released after ACK"); R.sub=3; }
      else if(after_ack&&stb){ fail(V_VIOL,VK_PROTO,"STB not released in the cycle after ACK"); R.sub=3; }
      else if(active){
        if(!stb||!cyc){ fail(V_VIOL,VK_PROTO,"STB/CYC dropped before ACK (after %u wait cycles)",waits); R.sub=4; }
        else if(we!=twe||adr!=tadr||sel!=tsel||(twe&&((dat^tdat)&lanes(tsel)))){
          fail(V_VIOL,VK_PROTO,"bus outputs changed while waiting for ACK: adr %08x->%08x sel %x->%x we %d->%d dat %08x->%08x",tadr,adr,tsel,sel,twe,we,tdat,dat); R.sub=5; }
        else waits++;
      } else if(stb&&!rst){
        // new transaction
        bool okSel = sel==1||sel==2||sel==4||sel==8||sel==3||sel==12||sel==15;
        if(!okSel){ fail(V_VIOL,VK_PROTO,"illegal SEL pattern %x",sel); R.sub=6; }
        active=true; waits=0; twe=we; tadr=adr; tsel=sel; tdat=dat; R.txns++;
        if(!nomodel){
          if(!win){ irq_hi=irq; irq_lo=!irq; }
          if(!R.status) resolve(we,adr,sel,dat,irq_hi,irq_lo);
          if(!R.status){
            tfetch=cands[0].st==0;
            if(tfetch && curslot>=0 && cands.size()){ // previous instruction complete
              const Model&m=cands[0].m; 
              if(have_fack){
                R.insns++; R.clscnt[m.cls]++; if(m.cls==C_IRQ) R.irqs++; if(m.trapped) R.traps++;
                if(q[curslot].phase==PH_BODY&&(q[curslot].s.insn!=0x13||m.cls!=C_ALU)) R.seen|=1u<<m.cls;
              }
            }
          }
        } else {
          tfetch = !we && sel==15 && true; // caller guarantees fetches are recognisable
        }
        if(!R.status){
          if(tfetch){
            R.fetches++;
            if((h->flags&CF_STOPPC)&&adr==h->start_pc>>2&&++stops==2) done=true;
            if(qi>=q.size()&&(h->flags&CF_MORE)){ Slot s; memset(&s,0,sizeof s); s.phase=PH_BODY; s.idx=q.size(); s.s.rst_at=-1; s.s.flags=F_MEMFETCH|F_LDMEM; q.push_back(s); }
            if(done||qi>=q.size()){ done=true; }
            else {
              curslot=qi++; const Slot&s=q[curslot];
              tw=wexp(s.s.fwait); wavecur=s.s.irq_wave; wave_t0=t; have_slot=true; rst_at=s.s.rst_at; rst_len=s.s.rst_len;
              if(s.phase==PH_BODY){ rst_step=s.idx; fetched_body=s.idx; }
              win=true; irq_hi=false; irq_lo=false; if(irq) irq_hi=true; else irq_lo=true;
            }
          } else { tw=curslot>=0?wexp(q[curslot].s.mwait):0; if(we) R.stores++; else R.loads++; }
          if(tw>R.maxwait) R.maxwait=tw;
        }
        last_ev=t;
      }
      }
      if(R.status) break;
      if(done) break;
      after_ack=false;
      rvfi_sample(irq); (irq?rvhi:rvlo)=true;
      if(active&&ack){
        // transaction completes at this clock edge
        if(h->flags&CF_LOG){ log.push_back((u32)twe<<31|(u32)tfetch<<30|tsel); log.push_back(tadr); log.push_back(twe?(tdat&lanes(tsel)):(datr&lanes(tsel))); }
        if(twe){ u32 l=lanes(tsel); u32 o=mem.get(tadr); mem.put(tadr,(o&~l)|(tdat&l)); }
        if(!rst && !nomodel) for(auto&c:cands){
          if(c.st==0){ c.st=1; c.word=datr; }
          else {
            if(c.m.exp==E_LOAD) load_done(c.m,datr);
            if(h->flags&(CF_RVFI|CF_RETLOG)){ c.cur.maddr=c.m.ea&~3u; c.cur.rdv=c.m.x[c.cur.rd];
              u32 s=acc_sel(c.m.f3,c.m.ea);
              if(twe){c.cur.mwmask=s;c.cur.mwdata=tdat;} else {c.cur.mrmask=s;c.cur.mrdata=datr;} push(c); }
            c.st=0; c.m.exp=E_FETCH;
          }
        }
        if(tfetch){
          if(have_fack && (h->flags&CF_TIMING) && !nomodel){
            u32 lim=0; for(auto&c:cands) lim=std::max(lim,limit(c.m));
            const Model&m=cands[0].m; u64 used=t-last_fack; u32 w=extra+tw;
            if(used>lim+w){
              fail(V_VIOL,VK_TIMING,"instruction class %d (shift %d) took %llu cycles between fetch acknowledges with %u extra wait cycles; documented limit %u",m.cls,m.shamt,(unsigned long long)used,w,lim); R.cls=m.cls; }
          }
          last_fack=t; have_fack=true; extra=0;
        } else extra+=tw;
        active=false; after_ack=true; last_ev=t;
      }
      if(rst){
        last_ev=t; 
        if(!rst_prev){ R.resets++; }
        if(rst_left>0) rst_left--;
        active=false; after_ack=false; have_fack=false; win=false; extra=0;
        if(rst_left<=0){ // reset ends: fresh machine, remaining body steps follow a new prologue
          rst_left=0; 
          size_t next= fetched_body>=0? (size_t)fetched_body+1 : 0;
          if(!nomodel||1){ reset_model(); build(next,true); have_slot=false; rv.clear(); rvw.clear(); rv_order=0; R.pad=0; }
        }
      }
      rst_prev=rst;
      if(active) last_ev=t;
      if(t-last_ev>300){ fail(V_VIOL,VK_TIMEOUT,"no bus activity for 300 cycles after insn %08x",cands.empty()?0:cands[0].word); break; }
      // ---- clock edge
      d.p_clk.set<bool>(true); d.step(); d.p_clk.set<bool>(false);
    }
    R.cycles=t; (void)rst_step;
    if(!R.status && !done && t>=h->max_cycles) { R.status=V_INCONC; snprintf(R.msg,sizeof R.msg,"cycle budget exhausted"); }
    if(!R.status && (h->flags&(CF_RVFI|CF_RETLOG)) && cands.size() && cands[0].tr) finaltr=*cands[0].tr;
#ifdef HAS_RVFI
    if(!R.status && (h->flags&CF_RVFI)){ if(R.pad){ R.status=V_INCONC; snprintf(R.msg,sizeof R.msg,"interrupt sampling ambiguous"); } else check_rvfi(); }
#endif
    R.nlog=log.size(); R.nwave=wave.size(); R.nret=finaltr.size(); R.rvfi_records=rv.size();
    return R.status;
  }
  typedef int64_t i64;
  void check_rvfi();
};
#include "rvfi.h"

static Engine*E=0;
extern "C" {
int eng_run(const CaseHdr*h,const Step*s,const u32*memi,Result*r){ if(!E) E=new Engine(); E->h=h; E->steps=s; E->memi=memi; E->run(); *r=E->R; return r->status; }
const u32* eng_log(){ return E->log.data(); }
const u64* eng_wave(){ return E->wave.data(); }
u32 eng_memget(u32 byteaddr){ return E->mem.get(byteaddr>>2); }
u32 eng_sizes(int i){ return i==0?sizeof(CaseHdr):i==1?sizeof(Step):sizeof(Result); }
}
