// Virtual unwinding through the image's .pdata/.xdata, as ntdll's RtlVirtualUnwind does for version 1 unwind info.
// h_unwind(depth_expected_tag): walks from its caller up to call_checked and verifies that every non-volatile register
// and the stack pointer come back with the values call_checked put there. It logs nothing by itself; it sets t_flags.
struct uctx{ u64 r[16]; u64 rip; u64 x[32]; };
static char unw_err[256]; 
static void unw_reset(void){ unw_err[0]=0; }
static u32*unw_last; static u64 unw_frame, unw_rsp_body;
static int unwind_one(struct uctx*c, u8*base, u32 pdata, u32 pdata_size, u64*func_begin){
    u32 rva=(u32)(c->rip-(u64)base); u32 n=pdata_size/12; u32*e=(u32*)(base+pdata); s64 lo=0,hi=(s64)n-1; u32*f=0;
    while(lo<=hi){ s64 m=(lo+hi)/2; if(rva<e[3*m]) hi=m-1; else if(rva>=e[3*m+1]) lo=m+1; else { f=&e[3*m]; break; } }
    if(!f){ *func_begin=0; c->rip=*(u64*)c->r[4]; c->r[4]+=8; return 1; } // leaf
    *func_begin=f[0]; u32 ui=f[2]; u32 prolog_off=rva-f[0]; unw_last=f; unw_rsp_body=c->r[4];
    if(prolog_off>=base[ui+1]){ // inside an epilogue? [add rsp,imm | lea rsp,[reg+disp]] pop* ret
        u8*q=(u8*)c->rip; struct uctx t=*c; int started=0, fr=base[ui+3]&15;
        if(q[0]==0x48&&q[1]==0x83&&q[2]==0xc4){ t.r[4]+=(s64)(signed char)q[3]; q+=4; started=1; } else if(q[0]==0x48&&q[1]==0x81&&q[2]==0xc4){ t.r[4]+=(s64)*(int*)(q+3); q+=7; started=1; }
        else if((q[0]&0xfe)==0x48&&q[1]==0x8d&&fr){ int m=q[2]; if(((m>>3)&7)==4&&(m&7)==(fr&7)&&(m&7)!=4){ if(m>>6==1){ t.r[4]=t.r[fr]+(s64)(signed char)q[3]; q+=4; started=1; } else if(m>>6==2){ t.r[4]=t.r[fr]+(s64)*(int*)(q+3); q+=7; started=1; } } }
        (void)started;
        for(;;){ int reg; if((q[0]&0xf8)==0x58){ reg=q[0]&7; q++; } else if(q[0]==0x41&&(q[1]&0xf8)==0x58){ reg=8+(q[1]&7); q+=2; } else break; t.r[reg]=*(u64*)t.r[4]; t.r[4]+=8; }
        if(q[0]==0xc3||(q[0]==0xf3&&q[1]==0xc3)){ *c=t; unw_frame=0; c->rip=*(u64*)c->r[4]; c->r[4]+=8; return 0; } }
    for(;;){ u8*u=base+ui; int ver=u[0]&7, flags=u[0]>>3; u8 szp=u[1], cnt=u[2]; int freg=u[3]&15, foff=u[3]>>4; if(ver!=1) return -1;
        u16*code=(u16*)(u+4); u64 frame=freg?c->r[freg]-foff*16:c->r[4];
        // frame register is only established once its opcode has been executed
        if(freg && prolog_off<szp){ int set=0; for(int i=0;i<cnt;){ int op=(code[i]>>8)&15, inf=code[i]>>12; if(op==3 && prolog_off>=(code[i]&0xff)) set=1; i+= op==1?(inf?3:2):op==4?2:op==5?3:op==8?2:op==9?3:1; } if(!set) frame=c->r[4]; }
        unw_frame=frame;
        for(int i=0;i<cnt;){ int off=code[i]&0xff, op=(code[i]>>8)&15, inf=code[i]>>12; int len= op==1?(inf?3:2):op==4?2:op==5?3:op==8?2:op==9?3:1; if(i+len>cnt) return -2;
            if(prolog_off>=(u32)off) switch(op){
                case 0: c->r[inf]=*(u64*)c->r[4]; c->r[4]+=8; break;
                case 1: if(inf==0) c->r[4]+=8ull*code[i+1]; else if(inf==1) c->r[4]+=code[i+1]|(u32)code[i+2]<<16; else return -3; break;
                case 2: c->r[4]+=8*inf+8; break;
                case 3: c->r[4]=frame; break;
                case 4: c->r[inf]=*(u64*)(frame+8ull*code[i+1]); break;
                case 5: c->r[inf]=*(u64*)(frame+(code[i+1]|(u32)code[i+2]<<16)); break;
                case 8: memcpy(&c->x[2*inf],(void*)(frame+16ull*code[i+1]),16); break;
                case 9: memcpy(&c->x[2*inf],(void*)(frame+(code[i+1]|(u32)code[i+2]<<16)),16); break;
                default: return -4; }
            i+=len; }
        if(flags&4){ u32*ch=(u32*)(u+4+2*((cnt+1)&~1)); ui=ch[2]; prolog_off=0xffffffff; continue; }
        break; }
    c->rip=*(u64*)c->r[4]; c->r[4]+=8; return 0; }
extern char call_checked_ret[]; extern u64 cc_sentinel_rsp; extern u64 cc_x[2]; extern u32 t_flags_sym;
static u8*test_stack; static u64 test_stack_size=0x400000;
static int in_test_stack(u64 a){ return a>=(u64)test_stack+0x10000 && a+8<=(u64)test_stack+0x10000+test_stack_size; }
static void unw_fail(const char*f,...){ t_flags_sym|=2; va_list v; va_start(v,f); if(!unw_err[0]) vsnprintf(unw_err,sizeof unw_err,f,v); va_end(v); if(getenv("PEX_VERBOSE")) fprintf(stderr,"unwind: %s\n",unw_err); }
static int unw_leaf_ok;
static void unw_check(struct uctx*c){
    for(int depth=0;;depth++){
        if(c->rip==(u64)call_checked_ret) break;
        if(depth>2000){ unw_fail("endless"); return; }
        if(c->rip<(u64)prod.base||c->rip>=(u64)prod.base+prod.size){ unw_fail("frame %d: return address %llx outside the image",depth,(unsigned long long)c->rip); return; }
        if(!in_test_stack(c->r[4])){ unw_fail("frame %d: rsp off the stack",depth); return; }
        u64 fb; c->rip-=0; int r=unwind_one(c,prod.base,prod.pdata,prod.pdata_size,&fb);
        if(r<0){ unw_fail("frame %d: bad unwind info (%d)",depth,r); return; }
        if(r==1&&!(unw_leaf_ok&&depth==0)){ unw_fail("frame %d: no function entry for a function that makes calls",depth); return; } }
    static const int ri[8]={3,5,6,7,12,13,14,15};
    if(c->r[4]!=cc_sentinel_rsp){ unw_fail("rsp differs by %lld",(long long)(c->r[4]-cc_sentinel_rsp)); return; }
    for(int i=0;i<8;i++) if(c->r[ri[i]]!=0x1111111122222221ull+i){ unw_fail("register %d not restored",ri[i]); return; }
    for(int i=6;i<16;i++) if(c->x[2*i]!=cc_x[0]||c->x[2*i+1]!=cc_x[1]){ unw_fail("xmm%d not restored",i); return; } }
// capture of the caller's registers at the call
__asm__(".text\n.globl s_h_unwind\ns_h_unwind:\n"
" sub $0x1a8,%rsp\n" // 16 regs*8 + rip + 32*8 = 128+8+256=392=0x188
" mov %rax,0x20(%rsp)\n mov %rcx,0x28(%rsp)\n mov %rdx,0x30(%rsp)\n mov %rbx,0x38(%rsp)\n lea 0x1b0(%rsp),%rax\n mov %rax,0x40(%rsp)\n mov %rbp,0x48(%rsp)\n mov %rsi,0x50(%rsp)\n mov %rdi,0x58(%rsp)\n"
" mov %r8,0x60(%rsp)\n mov %r9,0x68(%rsp)\n mov %r10,0x70(%rsp)\n mov %r11,0x78(%rsp)\n mov %r12,0x80(%rsp)\n mov %r13,0x88(%rsp)\n mov %r14,0x90(%rsp)\n mov %r15,0x98(%rsp)\n"
" mov 0x1a8(%rsp),%rax\n mov %rax,0xa0(%rsp)\n"
" movups %xmm6,0x108(%rsp)\n movups %xmm7,0x118(%rsp)\n movups %xmm8,0x128(%rsp)\n movups %xmm9,0x138(%rsp)\n movups %xmm10,0x148(%rsp)\n movups %xmm11,0x158(%rsp)\n movups %xmm12,0x168(%rsp)\n movups %xmm13,0x178(%rsp)\n movups %xmm14,0x188(%rsp)\n movups %xmm15,0x198(%rsp)\n"
" lea 0x20(%rsp),%rcx\n call unw_check_ms\n"
" add $0x1a8,%rsp\n ret\n"); extern char s_h_unwind[];
static void unw_check_any(struct uctx*c){ unw_leaf_ok=1; unw_check(c); unw_leaf_ok=0; }
MS void unw_check_ms(struct uctx*c){ unw_check(c); }
