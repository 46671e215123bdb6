// Reference model of an RV32I_Zicsr, M-mode only hart, written from the RISC-V
// unprivileged/privileged specifications and Sentinel's user documentation
// (doc/development/internals.md#csrs).  It shares nothing with the design.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;

enum Cls { C_ALU=0, C_LUI, C_AUIPC, C_SHI, C_SHR, C_JAL, C_JALR, C_BNT, C_BT, C_LOAD, C_STORE,
           C_FENCE, C_WFI, C_MRET, C_CSR, C_CSRRO, C_ECALL, C_EBREAK, C_ILLEGAL, C_CSRILL,
           C_MISJMP, C_MISLD, C_MISST, C_IRQ, C_N };

enum Exp { E_FETCH=0, E_LOAD=1, E_STORE=2 };

struct Retire {   // one architectural "retirement" as seen through a trace port
  u32 insn, pc, pcn, rd, rdv, rs1, rs2, rs1v, rs2v;
  u32 maddr, mrmask, mwmask, mrdata, mwdata;
  u8 trap, intr, rcls;
  // CSR view: value before / value written
  u32 csr_before[7]; u32 csr_w[7]; u8 csr_wr[7];
};
enum { K_MSCRATCH=0, K_MCAUSE, K_MIP, K_MIE, K_MSTATUS, K_MTVEC, K_MEPC };

struct Model {
  u32 x[32];
  u32 pc;
  u32 mtvec, mscratch, mepc, mcause;
  u8 mie, mpie, meie;
  // pending bus expectation
  u8 exp;         // Exp
  u8 f3;          // load/store width
  u8 rd;          // load destination
  u8 cls;         // class of last executed instruction
  u32 ea, sdata;  // load/store
  u32 lastpc;     // pc of the last instruction
  u8 shamt;       // for the timing monitor
  u8 trapped;     // last instruction trapped (or interrupt taken)
  // values a reset leaves undefined (only tracked for cases that ask for it)
  u32 ux;         // registers
  u8 uc;          // 1: mtvec, 2: mscratch, 4: mepc
  u8 anyd;        // the pending store's data is undefined
  u8 poison;      // the behaviour depends on an undefined value
};

static inline i32 sx(u32 v, int bits) { return (i32)(v << (32 - bits)) >> (32 - bits); }

struct CsrInfo { bool exists, rozero; };
// Which machine CSRs exist, per the documentation.
static inline CsrInfo csr_info(u32 a) {
  switch (a) {
    case 0x300: case 0x304: case 0x305: case 0x340: case 0x341: case 0x342: case 0x344: return {true,false};
    case 0xF11: case 0xF12: case 0xF13: case 0xF14: case 0xF15: return {true,true};
    case 0x301: case 0x310: case 0x320: case 0x343: case 0xB00: case 0xB02: case 0xB80: case 0xB82: return {true,true};
  }
  if ((a>=0xB03&&a<=0xB1F)||(a>=0xB83&&a<=0xB9F)||(a>=0x323&&a<=0x33F)) return {true,true};
  return {false,false};
}
static inline u32 csr_read(const Model&m,u32 a,int mip){
  switch(a){
    case 0x300: return 0x1800u | (m.mpie<<7) | (m.mie<<3);
    case 0x304: return (u32)m.meie<<11;
    case 0x305: return m.mtvec;
    case 0x340: return m.mscratch;
    case 0x341: return m.mepc;
    case 0x342: return m.mcause;
    case 0x344: return (u32)mip<<11;
  }
  return 0;
}
static inline void csr_write(Model&m,u32 a,u32 v){
  switch(a){
    case 0x300: m.mie=(v>>3)&1; m.mpie=(v>>7)&1; break;
    case 0x304: m.meie=(v>>11)&1; break;
    case 0x305: m.mtvec=v&~3u; m.uc&=~1; break;
    case 0x340: m.mscratch=v; m.uc&=~2; break;
    case 0x341: m.mepc=v&~3u; m.uc&=~4; break;
    case 0x342: m.mcause=v; break;
  }
}
static inline void do_trap(Model&m,u32 cause,u32 cls){
  if(m.uc&1) m.poison=1;
  m.uc&=~4; m.mepc=m.pc; m.mcause=cause; m.mpie=m.mie; m.mie=0; m.pc=m.mtvec; m.exp=E_FETCH; m.cls=cls; m.trapped=1;
}
static inline void wr(Model&m,u32 rd,u32 v){ if(rd){ m.x[rd]=v; m.ux&=~(1u<<rd); } }

// Does this instruction read the mip CSR into something observable?
static inline bool reads_mip(u32 w){ return (w&0x7f)==0x73 && ((w>>12)&3) && (w>>20)==0x344; }

static inline void take_irq(Model&m){ m.lastpc=m.pc; m.shamt=0; do_trap(m,0x8000000Bu,C_IRQ); }

// Execute w at m.pc.  Afterwards m.exp tells which bus access must come next.
static inline void exec(Model&m,u32 w,int mip){
  u32 op=w&0x7f, rd=(w>>7)&31, f3=(w>>12)&7, rs1=(w>>15)&31, rs2=(w>>20)&31, f7=w>>25;
  u32 a=m.x[rs1], b=m.x[rs2], pc=m.pc;
  i32 immI=(i32)w>>20;
  i32 immS=sx(((w>>25)<<5)|rd,12);
  i32 immB=sx(((w>>31)<<12)|(((w>>7)&1)<<11)|(((w>>25)&63)<<5)|(((w>>8)&15)<<1),13);
  i32 immJ=sx(((w>>31)<<20)|(((w>>12)&255)<<12)|(((w>>20)&1)<<11)|(((w>>21)&1023)<<1),21);
  m.lastpc=pc; m.exp=E_FETCH; m.shamt=0; m.trapped=0;
  #define ILL(c) do{ do_trap(m,2,c); return; }while(0)
  switch(op){
  case 0x37: wr(m,rd,w&0xfffff000u); m.cls=C_LUI; break;
  case 0x17: wr(m,rd,pc+(w&0xfffff000u)); m.cls=C_AUIPC; break;
  case 0x6f: { u32 t=pc+immJ; if(t&3){do_trap(m,0,C_MISJMP);return;} wr(m,rd,pc+4); m.pc=t; m.cls=C_JAL; return; }
  case 0x67: { if(f3) ILL(C_ILLEGAL); u32 t=(a+immI)&~1u; if(t&3){do_trap(m,0,C_MISJMP);return;} wr(m,rd,pc+4); m.pc=t; m.cls=C_JALR; return; }
  case 0x63: { bool t;
    switch(f3){case 0:t=a==b;break;case 1:t=a!=b;break;case 4:t=(i32)a<(i32)b;break;case 5:t=(i32)a>=(i32)b;break;
      case 6:t=a<b;break;case 7:t=a>=b;break;default: ILL(C_ILLEGAL);}
    if(t){ u32 n=pc+immB; if(n&3){do_trap(m,0,C_MISJMP);return;} m.pc=n; m.cls=C_BT; return; }
    m.cls=C_BNT; break; }
  case 0x03: { if(f3==3||f3>5) ILL(C_ILLEGAL); u32 ea=a+immI; u32 sz=f3&3;
    if((sz==1&&(ea&1))||(sz==2&&(ea&3))){do_trap(m,4,C_MISLD);return;}
    m.exp=E_LOAD; m.ea=ea; m.f3=f3; m.rd=rd; m.cls=C_LOAD; break; }
  case 0x23: { if(f3>2) ILL(C_ILLEGAL); u32 ea=a+immS;
    if((f3==1&&(ea&1))||(f3==2&&(ea&3))){do_trap(m,6,C_MISST);return;}
    m.exp=E_STORE; m.ea=ea; m.f3=f3; m.sdata=b; m.cls=C_STORE; break; }
  case 0x13: { u32 r; m.cls=C_ALU;
    switch(f3){case 0:r=a+immI;break;case 2:r=(i32)a<immI;break;case 3:r=a<(u32)immI;break;case 4:r=a^immI;break;
      case 6:r=a|immI;break;case 7:r=a&immI;break;
      case 1: if(f7) ILL(C_ILLEGAL); r=a<<rs2; m.cls=C_SHI; m.shamt=rs2; break;
      default: if(f7!=0&&f7!=0x20) ILL(C_ILLEGAL); r=f7?(u32)((i32)a>>rs2):a>>rs2; m.cls=C_SHI; m.shamt=rs2; break;}
    wr(m,rd,r); break; }
  case 0x33: { if(!(f7==0||(f7==0x20&&(f3==0||f3==5)))) ILL(C_ILLEGAL); u32 r; m.cls=C_ALU; u32 sh=b&31;
    switch(f3){case 0:r=f7?a-b:a+b;break;case 1:r=a<<sh;m.cls=C_SHR;m.shamt=sh;break;case 2:r=(i32)a<(i32)b;break;
      case 3:r=a<b;break;case 4:r=a^b;break;case 5:r=f7?(u32)((i32)a>>sh):a>>sh;m.cls=C_SHR;m.shamt=sh;break;
      case 6:r=a|b;break;default:r=a&b;}
    wr(m,rd,r); break; }
  case 0x0f: if(f3) ILL(C_ILLEGAL); m.cls=C_FENCE; break;
  case 0x73: {
    if(f3==0){
      if(w==0x00000073u){do_trap(m,11,C_ECALL);return;}
      if(w==0x00100073u){do_trap(m,3,C_EBREAK);return;}
      if(w==0x30200073u){ m.mie=m.mpie; m.mpie=1; m.pc=m.mepc; m.cls=C_MRET; return; }
      if(w==0x10500073u){ m.cls=C_WFI; break; }
      ILL(C_ILLEGAL);
    }
    if(f3==4) ILL(C_ILLEGAL);
    u32 ca=w>>20; CsrInfo ci=csr_info(ca);
    bool isw=(f3&3)==1; bool writes=isw||rs1!=0;
    if(!ci.exists) ILL(C_CSRILL);
    if(writes && (ca>>10)==3) ILL(C_CSRILL);
    u32 src=(f3&4)?rs1:a; u32 old=csr_read(m,ca,mip);
    u32 nv = isw?src : ((f3&3)==2? (old|src) : (old&~src));
    if(writes) csr_write(m,ca,nv);
    wr(m,rd,old);
    m.cls=ci.rozero?C_CSRRO:C_CSR; break; }
  default: ILL(C_ILLEGAL);
  }
  m.pc=pc+4;
}
// exec, with undefined values followed through registers and CSRs.
static inline void exec_u(Model&m,u32 w,int mip){
  if(!(m.ux|m.uc)){ m.anyd=0; exec(m,w,mip); return; }
  u32 op=w&0x7f, rd=(w>>7)&31, f3=(w>>12)&7, ca=w>>20;
  bool bad=false, a=m.ux>>((w>>15)&31)&1, b=m.ux>>((w>>20)&31)&1, t=false; u8 cb=0;
  m.anyd=0;
  switch(op){
  case 0x13: t=a; break;
  case 0x33: t=a||b; break;
  case 0x03: case 0x67: if(a) bad=true; break;
  case 0x63: if(a||b) bad=true; break;
  case 0x23: if(a) bad=true; m.anyd=b; break;
  case 0x73:
    if(w==0x30200073u){ if(m.uc&4) bad=true; break; }
    if(!(f3&3)) break;
    if(f3&4) a=false;
    cb= ca==0x305?1:ca==0x340?2:ca==0x341?4:0;
    t=(m.uc&cb)!=0;
    if((f3&3)!=1){
      if((w>>15)&31){ if(cb){ if(!a&&!t) cb=0; } else if(a) bad=true; }
      else if(!t) cb=0;
    } else { if(!a) cb=0; else if(!cb) bad=true; }
    break;
  }
  exec(m,w,mip);
  if(m.cls!=C_ILLEGAL&&m.cls!=C_CSRILL&&m.cls!=C_CSRRO&&bad) m.poison=1;
  if(!m.trapped){ if(t&&rd) m.ux|=1u<<rd; if(op==0x73) m.uc|=cb; }
}
static inline void load_done(Model&m,u32 word){
  u32 v; u32 off=m.ea&3;
  switch(m.f3){case 0:v=(u32)sx((word>>(off*8))&0xff,8);break;case 1:v=(u32)sx((word>>(off*8))&0xffff,16);break;
    case 2:v=word;break;case 4:v=(word>>(off*8))&0xff;break;default:v=(word>>(off*8))&0xffff;}
  wr(m,m.rd,v); m.exp=E_FETCH;
}
static inline u32 acc_sel(u32 f3,u32 ea){ u32 sz=f3&3; return sz==2?15u:(sz==1?3u:1u)<<(ea&3); }
