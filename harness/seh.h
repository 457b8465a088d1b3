// Structured exception handling and single stepping for tests (option "seh").
// Faults and RaiseException are dispatched through .pdata/.xdata as RtlDispatchException does: every frame with a language handler
// gets its handler (the image's import of __C_specific_handler, implemented below) called, -1 resumes, 1 unwinds to the jump target.
// h_step(1) sets the trap flag: from then on the virtual unwinder is run at every single instruction executed inside the image.
static int seh_on; static volatile int stepping; static u64 step_count, seh_count;
static const int greg_of[16]={REG_RAX,REG_RCX,REG_RDX,REG_RBX,REG_RSP,REG_RBP,REG_RSI,REG_RDI,REG_R8,REG_R9,REG_R10,REG_R11,REG_R12,REG_R13,REG_R14,REG_R15};
struct exrec{ u32 code,flags; struct exrec*next; void*addr; u32 n; u64 info[15]; };
struct dispctx{ u64 pc; u64 base; u32*fe; u64 frame; u64 target; void*ctx; void*handler; u32*data; void*hist; u32 scope,fill; };
struct expair{ struct exrec*rec; u8*ctx; };
static struct uctx seh_ctx; static struct exrec seh_rec; static struct uctx seh_go;
static void ctx_to_win(u8*w,struct uctx*c){ memset(w,0,1232); for(int i=0;i<16;i++) memcpy(w+0x78+8*i,&c->r[i],8); memcpy(w+0xf8,&c->rip,8); memcpy(w+0x1a0,c->x,256); *(u32*)(w+0x30)=0x10000b; *(u32*)(w+0x34)=0x1f80; *(u32*)(w+0x44)=0x202; }
static void win_to_ctx(struct uctx*c,u8*w){ for(int i=0;i<16;i++) memcpy(&c->r[i],w+0x78+8*i,8); memcpy(&c->rip,w+0xf8,8); memcpy(c->x,w+0x1a0,256); }
static __attribute__((noreturn)) void seh_restore(struct uctx*c){ seh_go=*c; for(;;) raise(SIGUSR1); }
typedef MS int filter_fn(struct expair*,u64); typedef MS int handler_fn(struct exrec*,u64,u8*,struct dispctx*);
static MS int k_C_specific_handler(struct exrec*rec,u64 frame,u8*ctx,struct dispctx*d){
    u32*t=d->data; u32 n=*t++; u64 pc=d->pc-d->base;
    if(n>10000){ unw_fail("scope table of %u entries",n); return 1; }
    for(u32 i=0;i<n;i++,t+=4){ if(pc<t[0]||pc>=t[1]) continue;
        if(!t[3]) continue; // __finally: not in the search phase
        if(t[3]>=prod.size||(t[2]!=1&&t[2]>=prod.size)){ unw_fail("scope table entry outside the image"); return 1; }
        struct expair p={rec,ctx}; int v=1;
        if(t[2]!=1){ v=((filter_fn*)(prod.base+t[2]))(&p,frame); }
        if(v<0) return 0; if(v>0){ d->target=d->base+t[3]; return 100; } }
    return 1; }
static __attribute__((noreturn)) void seh_dispatch(void){
    static u8 wctx_[16][1232]; static struct exrec recs[16]; static int depth; int dp=depth++&15; u8*wctx=wctx_[dp]; struct exrec*rec=&recs[dp]; *rec=seh_rec; ctx_to_win(wctx,&seh_ctx); seh_count++;
    struct uctx c=seh_ctx;
    for(int k=0;k<5000;k++){
        if(c.rip==(u64)call_checked_ret) break;
        if(c.rip<(u64)prod.base||c.rip>=(u64)prod.base+prod.size||!in_test_stack(c.r[4])){ unw_fail("exception dispatch: frame %d outside the image or the stack",k); break; }
        struct uctx at=c; u64 fb; int r=unwind_one(&c,prod.base,prod.pdata,prod.pdata_size,&fb);
        if(r<0||(r==1&&k>0)){ unw_fail("exception dispatch: frame %d: bad unwind info",k); break; }
        if(r==1||!unw_frame) continue;
        u32*f=unw_last; u8*u=prod.base+f[2]; int flags=u[0]>>3; u32 szp=u[1];
        if(!(flags&1)||at.rip-(u64)prod.base-f[0]<szp) continue;
        u32*h=(u32*)(u+4+2*((u[2]+1)&~1)); struct dispctx d={at.rip,(u64)prod.base,f,unw_frame,0,wctx,prod.base+h[0],h+1,0,0,0};
        if(h[0]>=prod.size){ unw_fail("language handler outside the image"); break; }
        int v=((handler_fn*)d.handler)(rec,unw_frame,wctx,&d);
        if(v==0){ win_to_ctx(&at,wctx); depth--; seh_restore(&at); }
        if(v==100){ at.rip=d.target; at.r[4]=unw_rsp_body; at.r[0]=rec->code; depth--; seh_restore(&at); } }
    g_sig=100; siglongjmp(*g_jmp,1); }
__asm__(".text\n.globl seh_tramp\nseh_tramp:\n and $-16,%rsp\n sub $0x2000,%rsp\n call seh_dispatch_sym\n ud2\n"); extern char seh_tramp[];
void seh_dispatch_sym(void){ seh_dispatch(); }
static void uc_to_ctx(struct uctx*c,ucontext_t*uc){ for(int i=0;i<16;i++) c->r[i]=uc->uc_mcontext.gregs[greg_of[i]]; c->rip=uc->uc_mcontext.gregs[REG_RIP]; memcpy(c->x,uc->uc_mcontext.fpregs->_xmm,256); }
// returns 1 if the signal has been dealt with
static int seh_signal(int s,siginfo_t*si,ucontext_t*uc){
    greg_t*g=uc->uc_mcontext.gregs; u64 ip=g[REG_RIP];
    if(s==SIGUSR1){ for(int i=0;i<16;i++) g[greg_of[i]]=seh_go.r[i]; g[REG_RIP]=seh_go.rip; memcpy(uc->uc_mcontext.fpregs->_xmm,seh_go.x,256); g[REG_EFL]=(g[REG_EFL]&~0x500); return 1; }
    int inside=ip>=(u64)prod.base&&ip<(u64)prod.base+prod.size;
    if(s==SIGTRAP && si->si_code!=SI_KERNEL){ if(!inside||!stepping) return 1;
        struct uctx c; uc_to_ctx(&c,uc); step_count++; u32 fl=t_flags_sym; unw_check_any(&c); if((t_flags_sym&2)&&!(fl&2)){ char e[200]; snprintf(e,sizeof e,"%s",unw_err); snprintf(unw_err,sizeof unw_err,"at image+0x%llx: %s",(unsigned long long)(ip-(u64)prod.base),e); if(getenv("PEX_VERBOSE")) fprintf(stderr,"%s\n",unw_err); } return 1; }
    if(!inside||s==SIGVTALRM) return 0;
    uc_to_ctx(&seh_ctx,uc); memset(&seh_rec,0,sizeof seh_rec); 
    switch(s){
        case SIGSEGV: case SIGBUS: seh_rec.code=0xC0000005; seh_rec.n=2; seh_rec.info[0]=(g[REG_ERR]&2)?1:(g[REG_ERR]&16)?8:0; seh_rec.info[1]=g[REG_TRAPNO]==14?(u64)si->si_addr:~0ull; break;
        case SIGFPE: seh_rec.code=0xC0000094; break;
        case SIGILL: seh_rec.code=0xC000001D; break;
        case SIGTRAP: seh_rec.code=0x80000003; seh_rec.n=1; ip--; seh_ctx.rip--; break;
        default: return 0; }
    seh_rec.addr=(void*)ip; stepping=0;
    if(!in_test_stack(g[REG_RSP])) return 0;
    g[REG_RSP]-=256; g[REG_RIP]=(u64)seh_tramp; g[REG_EFL]&=~0x500; return 1; }
// RaiseException(code, flags, count, arguments)
__asm__(".text\n.globl s_RaiseException\ns_RaiseException:\n"
" sub $0x1a8,%rsp\n"
" mov %rax,0x20(%rsp)\n mov %rcx,0x28(%rsp)\n mov %rdx,0x30(%rsp)\n mov %rbx,0x38(%rsp)\n lea 0x1b0(%rsp),%rax\n mov %rax,0x40(%rsp)\n mov %rbp,0x48(%rsp)\n mov %rsi,0x50(%rsp)\n mov %rdi,0x58(%rsp)\n"
" mov %r8,0x60(%rsp)\n mov %r9,0x68(%rsp)\n mov %r10,0x70(%rsp)\n mov %r11,0x78(%rsp)\n mov %r12,0x80(%rsp)\n mov %r13,0x88(%rsp)\n mov %r14,0x90(%rsp)\n mov %r15,0x98(%rsp)\n"
" mov 0x1a8(%rsp),%rax\n mov %rax,0xa0(%rsp)\n"
" movups %xmm6,0x108(%rsp)\n movups %xmm7,0x118(%rsp)\n movups %xmm8,0x128(%rsp)\n movups %xmm9,0x138(%rsp)\n movups %xmm10,0x148(%rsp)\n movups %xmm11,0x158(%rsp)\n movups %xmm12,0x168(%rsp)\n movups %xmm13,0x178(%rsp)\n movups %xmm14,0x188(%rsp)\n movups %xmm15,0x198(%rsp)\n"
" lea 0x20(%rsp),%rcx\n call raise_ms\n ud2\n"); extern char s_RaiseException[];
MS void raise_ms(struct uctx*c){ stepping=0; seh_ctx=*c; memset(&seh_rec,0,sizeof seh_rec); seh_rec.code=(u32)c->r[1]; seh_rec.flags=(u32)c->r[2]&1; seh_rec.addr=(void*)c->rip; u64 n=(u32)c->r[8]; u64*a=(u64*)c->r[9]; if(!a) n=0; if(n>15) n=15; seh_rec.n=n; for(u64 i=0;i<n;i++) seh_rec.info[i]=a[i]; seh_dispatch(); }
__asm__(".text\n.globl s_h_step\ns_h_step:\n mov %ecx,stepping_sym(%rip)\n call step_set_ms\n pushfq\n test %ecx,%ecx\n jz 1f\n orq $0x100,(%rsp)\n jmp 2f\n1: andq $-0x101,(%rsp)\n2: popfq\n ret\n"
 ".globl step_set_ms\nstep_set_ms:\n push %rcx\n push %rdx\n sub $0x28,%rsp\n call step_set_c\n add $0x28,%rsp\n pop %rdx\n pop %rcx\n ret\n"); extern char s_h_step[]; int stepping_sym;
MS void step_set_c(void){ stepping=stepping_sym&&seh_on; }
