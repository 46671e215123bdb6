// Comparison of the trace port's records with the reference history.
#pragma once
#ifdef HAS_RVFI
#define BAD(name,...) do{ char b[300]; snprintf(b,sizeof b,__VA_ARGS__); fail(V_VIOL,VK_RVFI,"record %zu (insn %08x pc %08x) %s: %s",i,e.insn,e.pc,name,b); R.sub=e.rcls; R.insn=e.insn; return; }while(0)
inline void Engine::check_rvfi(){
  size_t n=finaltr.size();
  Retire e; memset(&e,0,sizeof e); size_t i=0;
  if(rv.size()+1!=n) BAD("count","trace port reported %zu instructions, %zu executed (last one is reported later)",rv.size(),n);
  bool prevtrap=false; bool known[7]={0,1,0,1,0,0,0};
  static const char*nm[7]={"mscratch","mcause","mip","mie","mstatus","mtvec","mepc"};
  static const u32 wm[7]={~0u,~0u,0,0x800,0x88,~3u,~3u};
  for(i=0;i<n&&i<rv.size();i++){
    e=finaltr[i]; const Retire&o=rv[i];
    if(o.insn!=e.insn) BAD("insn","%08x, executed %08x",o.insn,e.insn);
    if(o.pc!=e.pc) BAD("pc_rdata","%08x, expected %08x",o.pc,e.pc);
    if(o.pcn!=e.pcn) BAD("pc_wdata","%08x, expected %08x",o.pcn,e.pcn);
    if(o.trap!=e.trap) BAD("trap","%d, expected %d",o.trap,e.trap);
    if(o.intr!=prevtrap) BAD("intr","%d, expected %d",o.intr,prevtrap);
    u32 op=e.insn&0x7f, f3=(e.insn>>12)&7;
    bool u1=op==0x67||op==0x63||op==3||op==0x23||op==0x13||op==0x33||(op==0x73&&(f3==1||f3==2||f3==3));
    bool u2=op==0x63||op==0x23||op==0x33;
    if(!e.trap){
      if(u1){ if(o.rs1!=e.rs1) BAD("rs1_addr","%d",o.rs1); if(o.rs1v!=e.rs1v) BAD("rs1_rdata","%08x, expected %08x",o.rs1v,e.rs1v); }
      if(u2){ if(o.rs2!=e.rs2) BAD("rs2_addr","%d",o.rs2); if(o.rs2v!=e.rs2v) BAD("rs2_rdata","%08x, expected %08x",o.rs2v,e.rs2v); }
      bool hasrd=op==0x37||op==0x17||op==0x6f||op==0x67||op==3||op==0x13||op==0x33||(op==0x73&&f3);
      u32 rd=hasrd?e.rd:0;
      if(o.rd!=rd) BAD("rd_addr","%d, expected %d",o.rd,rd);
      if(o.rdv!=(rd?e.rdv:0)) BAD("rd_wdata","%08x, expected %08x",o.rdv,rd?e.rdv:0);
      if(o.mrmask!=e.mrmask) BAD("mem_rmask","%x, expected %x",o.mrmask,e.mrmask);
      if(o.mwmask!=e.mwmask) BAD("mem_wmask","%x, expected %x",o.mwmask,e.mwmask);
      if(e.mrmask||e.mwmask){ if(o.maddr!=e.maddr) BAD("mem_addr","%08x, expected %08x",o.maddr,e.maddr); }
      if(e.mrmask&&((o.mrdata^e.mrdata)&lanes(e.mrmask))) BAD("mem_rdata","%08x, expected %08x",o.mrdata,e.mrdata);
      if(e.mwmask&&((o.mwdata^e.mwdata)&lanes(e.mwmask))) BAD("mem_wdata","%08x, expected %08x",o.mwdata,e.mwdata);
    } else {
      if(e.rcls==C_CSRILL&&o.rd) BAD("rd_addr","%d for an illegal CSR access",o.rd);
      if(o.mwmask|o.mrmask) BAD("trap_mem_mask","r%x w%x",o.mrmask,o.mwmask);
    }
    for(int k=0;k<7;k++) if(k!=K_MIP){
      u32 m=known[k]?~0u:k==K_MSTATUS?~0x80u:0;   // not defined before the first write
      if((o.csr_before[k]^e.csr_before[k])&m) BAD(nm[k],"rdata %08x, expected %08x trap=%d",o.csr_before[k],e.csr_before[k],e.trap);
    }
    if(!e.trap&&op==0x73&&(f3&3)){
      u32 ca=e.insn>>20; bool w=(f3&3)==1||e.rs1;
      int k=ca==0x340?K_MSCRATCH:ca==0x342?K_MCAUSE:ca==0x304?K_MIE:ca==0x300?K_MSTATUS:ca==0x305?K_MTVEC:ca==0x341?K_MEPC:-1;
      if(w&&k>=0&&((o.csr_w[k]^e.csr_w[k])&wm[k])) BAD((std::string(nm[k])+"_w").c_str(),"wdata %08x, expected %08x",o.csr_w[k],e.csr_w[k]);
    }
    if(!e.trap&&op==0x73&&(f3&3)){
      // riscv-formal's csrw rule: bits set (cleared) by the instruction are
      // shown as ones (zeros) in the write data
      static const u16 ca20[20]={0x340,0x342,0x344,0x304,0x300,0x305,0x341,0xf11,0xf12,0xf13,0xf14,0xf15,0x301,0x310,0x320,0x343,0x323,0xb00,0xb02,0xb03};
      u32 ca=e.insn>>20, arg=f3&4?e.rs1:e.rs1v; bool hi=ca==0xb80||ca==0xb82||ca==0xb83;
      if((f3&3)==1||e.rs1) for(int k=0;k<20;k++) if(ca20[k]==(hi?ca-0x80:ca)){
        u64 wd64=rvw[i].wd[k], wm64=rvw[i].wm[k];
        u32 wd=hi?wd64>>32:wd64, wmk=hi?wm64>>32:wm64, other=hi?wm64:wm64>>32;
        u32 sm=(f3&3)==3?0:arg, cm=(f3&3)==1?~arg:(f3&3)==3?arg:0;
        if((sm&~wd&wmk)||(cm&wd&wmk)) BAD("csr_wdata","CSR %03x operand %08x, reported %08x mask %08x",ca,arg,wd,wmk);
        if(k>=7&&wd!=((f3&3)==3?0:arg)) BAD("csr_wdata","CSR %03x operand %08x, reported %08x",ca,arg,wd);
        if(wmk!=~0u) BAD("csr_wmask","CSR %03x mask %08x",ca,wmk);
        if(k>=17&&other) BAD("csr_wmask","CSR %03x also marks the other half as written (%08x)",ca,other);
      }
    }
    if(e.trap){
      if(o.csr_w[K_MCAUSE]!=e.csr_w[K_MCAUSE]) BAD("mcause_wdata","%08x at the entry, expected %08x",o.csr_w[K_MCAUSE],e.csr_w[K_MCAUSE]);
      if(o.csr_w[K_MEPC]!=e.csr_w[K_MEPC]) BAD("mepc_wdata","%08x at the entry, expected %08x",o.csr_w[K_MEPC],e.csr_w[K_MEPC]);
    }
    if(e.trap) known[K_MSTATUS]=known[K_MEPC]=known[K_MCAUSE]=true;
    if(e.insn==0x30200073) known[K_MSTATUS]=true;
    if(!e.trap&&op==0x73&&(f3&3)==1) switch(e.insn>>20){
      case 0x300: known[K_MSTATUS]=true; break; case 0x305: known[K_MTVEC]=true; break; case 0x340: known[K_MSCRATCH]=true; break;
      case 0x341: known[K_MEPC]=true; break; case 0x342: known[K_MCAUSE]=true; break; }
    prevtrap=e.trap;
  }
}
#endif
