// pex: a small native loader for x64 PE images, used to run hlc.exe and the images hlc produces without Wine.
//
//   pex server <hlc.exe> <dir-of-hlc-exe>   fork server, requests on stdin, answers on stdout
//
// Request:  one line   "<kind> <timeout_ms> <nargs> <outfile>\n", then the working directory and nargs lines.
//    kind H: run the preloaded compiler with argv = args
//    kind T: args[0] is a DLL exporting t0,t1,... ; options args[1..]; run each test, write a binary log to outfile
//    kind X: args[0] is an EXE; args[1] is the raw command line; run its entry point, stdout goes to outfile
// Answer:   "<status> <cpu_us>\n" where status is the exit code, or 1000000+signal, or 2000000 on timeout
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <asm/prctl.h>
#include <ucontext.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t s32; typedef int64_t s64;
#define MS __attribute__((ms_abi))

static char g_exe_path[4096] = "C:\\hlc\\hlc.exe"; // what GetModuleFileName answers
static char *g_command_line = "";
static int g_stdout_fd = 1;
static char g_sdk[4096] = "Z:\\opt\\hlc\\sdk";
static const char *g_path_of_image = "";

static __attribute__((noreturn)) void die(int code){ _exit(code); }
static void msg(const char *f, ...){ char b[2048]; va_list v; va_start(v,f); int n=vsnprintf(b,sizeof b,f,v); va_end(v); if(n>(int)sizeof b-1)n=sizeof b-1; if(write(g_stdout_fd,b,n)){} }

// ---------------------------------------------------------------- TEB
struct teb{ u64 seh; u64 stack_base; u64 stack_limit; u64 r0; u64 r1; u64 user; u64 self; u64 r2; u64 pid; u64 tid; u64 r3; void **tls; u64 peb; u8 rest[0x2000]; };
static u8 *tls_start; static u64 tls_raw, tls_size; static u32 tls_index_value;
static void set_gs(void *p){ syscall(SYS_arch_prctl, ARCH_SET_GS, p); }
static void setup_teb(void *stack_lo, void *stack_hi){
    struct teb *t = calloc(1,sizeof *t); t->self=(u64)t; t->stack_base=(u64)stack_hi; t->stack_limit=(u64)stack_lo; t->pid=4; t->tid=8+(u64)syscall(SYS_gettid);
    t->tls = calloc(64,8); t->peb=(u64)calloc(1,0x1000);
    if(tls_start){ u8 *b; if(posix_memalign((void**)&b,64,tls_size+64)) die(90); memset(b,0,tls_size+64); memcpy(b,tls_start,tls_raw); t->tls[tls_index_value]=b; }
    set_gs(t);
}

// ---------------------------------------------------------------- paths
static void unix_path(const char *in, char *out, size_t cap){
    char b[8192]; size_t n=0;
    if(in[0] && in[1]==':'){ in+=2; if(*in!='/' && *in!='\\'){ b[n++]='/'; } }
    for(; *in && n<sizeof b-1; in++) b[n++] = (*in=='\\')?'/':*in;
    b[n]=0;
    // collapse double slashes
    size_t m=0; for(size_t i=0;i<n && m<cap-1;i++){ if(b[i]=='/' && m && out[m-1]=='/') continue; out[m++]=b[i]; } out[m]=0;
    struct stat st; if(stat(out,&st)==0) return;
    // case-insensitive fallback, component by component
    char r[8192]; size_t rn=0; char *p=out; char tmp[8192]; strcpy(tmp,out); p=tmp;
    if(*p=='/'){ r[rn++]='/'; p++; } r[rn]=0;
    while(*p){
        char *e=strchr(p,'/'); if(e) *e=0;
        char trial[8192]; snprintf(trial,sizeof trial,"%s%s",rn?r:"./",p);
        if(stat(trial,&st)!=0){
            DIR *d=opendir(rn?r:"."); int found=0;
            if(d){ struct dirent *de; while((de=readdir(d))) if(!strcasecmp(de->d_name,p)){ snprintf(trial,sizeof trial,"%s%s",rn?r:"./",de->d_name); found=1; break; } closedir(d); }
            if(!found) return;
        }
        rn=strlen(trial); memcpy(r,trial,rn+1);
        if(e){ r[rn++]='/'; r[rn]=0; p=e+1; } else break;
    }
    if(rn<cap) memcpy(out,r,rn+1);
}
static void win_path(const char *in, char *out, size_t cap){ size_t n=0; if(cap>2){ out[n++]='Z'; out[n++]=':'; } for(;*in && n<cap-1;in++) out[n++]=(*in=='/')?'\\':*in; out[n]=0; }

// ---------------------------------------------------------------- kernel32
static __thread u32 last_error;
enum { H_FILE=1, H_EVENT, H_THREAD, H_FIND, H_SEM };
struct handle{ int kind; int fd; int writable; pthread_t th; int done; int manual; int signaled; u64 gen; s64 count; pthread_mutex_t m; pthread_cond_t c; char **names; int n, at; char dir[4096]; };
#define INVALID ((void*)-1)
static struct handle *new_handle(int kind){ struct handle *h=calloc(1,sizeof *h); h->kind=kind; pthread_mutex_init(&h->m,0); pthread_cond_init(&h->c,0); return h; }
#define STDH(n) ((void*)(u64)(0x10+(n)))
MS static u32 k_GetLastError(void){ return last_error; }
MS static void k_SetLastError(u32 e){ last_error=e; }
MS static void *k_GetStdHandle(u32 n){ if(n==(u32)-11) return STDH(1); if(n==(u32)-12) return STDH(2); return STDH(0); }
static int g_stderr_fd = -1;
static char **g_write_log; 
MS static s32 k_CloseHandle(struct handle *h){ if((u64)h<0x100 || h==INVALID) return 1; if(h->kind==H_FILE){ close(h->fd); } return 1; }
MS static void *k_CreateFileA(char *name,u32 access,u32 share,void*sa,u32 disp,u32 flags,void*tmpl){
    char p[8192]; unix_path(name,p,sizeof p); struct stat st; int exists=stat(p,&st)==0;
    if(exists && S_ISDIR(st.st_mode) && !(flags&0x02000000)){ last_error=5; return INVALID; }
    int fl; if(access&0x40000000) fl=(access&0x80000000)?O_RDWR:O_WRONLY; else fl=O_RDONLY;
    switch(disp){ case 1: fl|=O_CREAT|O_EXCL; break; case 2: fl|=O_CREAT|O_TRUNC; break; case 4: fl|=O_CREAT; break; case 5: fl|=O_TRUNC; break; default: break; }
    int fd=open(p,fl|O_CLOEXEC,0777);
    if(fd<0){ last_error = errno==ENOENT?2:5; return INVALID; }
    last_error = (exists && (disp==2||disp==4))?183:0;
    struct handle *h=new_handle(H_FILE); h->fd=fd; return h;
}
struct ft{u32 lo,hi;};
static struct ft ft_of(struct timespec t){ u64 v=116444736000000000ull+(u64)t.tv_sec*10000000ull+t.tv_nsec/100; return (struct ft){(u32)v,(u32)(v>>32)}; }
struct bhfi{ u32 attr; struct ft c,a,w; u32 vol, szhi, szlo, links, idhi, idlo; };
MS static s32 k_GetFileInformationByHandle(struct handle *h, struct bhfi *o){ struct stat st; if(fstat(h->fd,&st)) return 0; o->attr=S_ISDIR(st.st_mode)?0x10:0x20; o->c=ft_of(st.st_ctim);o->a=ft_of(st.st_atim);o->w=ft_of(st.st_mtim); o->vol=1;o->szhi=st.st_size>>32;o->szlo=st.st_size;o->links=st.st_nlink;o->idhi=(u64)st.st_ino>>32;o->idlo=st.st_ino; return 1; }
MS static s32 k_GetFileSizeEx(struct handle *h, s64 *o){ struct stat st; if(fstat(h->fd,&st)) return 0; *o=st.st_size; return 1; }
MS static u32 k_GetFileSize(struct handle *h, u32 *hi){ struct stat st; if(fstat(h->fd,&st)) return -1; if(hi)*hi=st.st_size>>32; return st.st_size; }
MS static s32 k_ReadFile(struct handle *h,char*b,u32 n,u32*got,void*ov){ u32 t=0; int fd=(u64)h<0x100?0:h->fd; while(t<n){ ssize_t r=read(fd,b+t,n-t); if(r<0){ if(errno==EINTR)continue; return 0;} if(!r)break; t+=r; } if(got)*got=t; return 1; }
MS static s32 k_WriteFile(struct handle *h,const char*b,u32 n,u32*put,void*ov){
    int fd; if((u64)h==0x11) fd=g_stdout_fd; else if((u64)h==0x12) fd=g_stderr_fd>=0?g_stderr_fd:g_stdout_fd; else if((u64)h<0x100||h==INVALID) return 0; else fd=h->fd;
    u32 t=0; while(t<n){ ssize_t r=write(fd,b+t,n-t); if(r<0){ if(errno==EINTR)continue; last_error=112; return 0;} t+=r; } if(put)*put=t; return 1; }
MS static u32 k_GetFileAttributesA(char *name){ char p[8192]; unix_path(name,p,sizeof p); struct stat st; if(stat(p,&st)){ last_error=2; return -1; } return S_ISDIR(st.st_mode)?0x10:0x20; }
MS static s32 k_DeleteFileA(char *name){ (void)name; return 0; }
static int wildmatch(const char*p,const char*s){ for(;*p;p++,s++){ if(*p=='*'){ while(*p=='*')p++; if(!*p)return 1; for(;*s;s++) if(wildmatch(p,s)) return 1; return 0; } if(!*s) return 0; if(*p=='?') continue; char a=*p,b=*s; if(a>='A'&&a<='Z')a+=32; if(b>='A'&&b<='Z')b+=32; if(a!=b) return 0; } return !*s; }
static int cmpstr(const void*a,const void*b){ return strcasecmp(*(char**)a,*(char**)b); }
struct fd_a{ u32 attr; struct ft c,a,w; u32 szhi,szlo,r0,r1; char name[260]; char alt[14]; };
static void fill_find(struct handle*h, struct fd_a*o){ char p[8192]; memset(o,0,sizeof *o); snprintf(o->name,260,"%s",h->names[h->at]); snprintf(p,sizeof p,"%s/%s",h->dir,h->names[h->at]); struct stat st; if(stat(p,&st)==0){ o->attr=S_ISDIR(st.st_mode)?0x10:0x20; if(!S_ISDIR(st.st_mode)){o->szlo=st.st_size;o->szhi=st.st_size>>32;} o->c=ft_of(st.st_ctim);o->a=ft_of(st.st_atim);o->w=ft_of(st.st_mtim);} else o->attr=0x20; }
MS static void *k_FindFirstFileA(char *pat, struct fd_a*o){
    char b[8192]; snprintf(b,sizeof b,"%s",pat); for(char*q=b;*q;q++) if(*q=='\\')*q='/'; char *sl=strrchr(b,'/'); char *mask=sl?sl+1:b; char d[8192];
    if(sl){ *sl=0; char t[8192]; snprintf(t,sizeof t,"%s/",b); unix_path(t,d,sizeof d);} else strcpy(d,".");
    struct handle*h=new_handle(H_FIND); snprintf(h->dir,sizeof h->dir,"%s",d); DIR *dd=opendir(d); if(!dd){ last_error=3; return INVALID; }
    int cap=16; h->names=malloc(cap*8); struct dirent*de; while((de=readdir(dd))){ if(!strcmp(mask,"*")||!strcmp(mask,"*.*")||wildmatch(mask,de->d_name)){ if(h->n==cap){cap*=2;h->names=realloc(h->names,cap*8);} h->names[h->n++]=strdup(de->d_name);} } closedir(dd);
    if(!h->n){ last_error=2; return INVALID; } qsort(h->names,h->n,8,cmpstr); h->at=0; fill_find(h,o); return h; }
MS static s32 k_FindNextFileA(struct handle*h, struct fd_a*o){ if(++h->at>=h->n){ last_error=18; return 0;} fill_find(h,o); return 1; }
MS static s32 k_FindClose(struct handle*h){ return 1; }
MS static char *k_GetCommandLineA(void){ return g_command_line; }
static u16 *widen(const char*s,size_t n){ // UTF-8 when it is valid, bytes otherwise
    u16*w=malloc(2*n+4); size_t k=0; for(size_t i=0;i<n;){ u8 c=s[i]; int m=c<0x80?0:c>=0xc2&&c<0xe0?1:c>=0xe0&&c<0xf0?2:-1; u32 v=m==0?c:m==1?c&31:c&15; int ok=m>=0&&i+m<n; for(int j=1;ok&&j<=m;j++){ if((s[i+j]&0xc0)!=0x80) ok=0; v=v<<6|(s[i+j]&63); } if(!ok){ v=c; m=0; } w[k++]=(u16)v; i+=m+1; } w[k]=0; return w; }
static char g_environment[65536]; static size_t g_environment_size=1;
MS static u16 *k_GetCommandLineW(void){ static u16 *w; if(!w) w=widen(g_command_line,strlen(g_command_line)); return w; }
MS static char *k_GetEnvironmentStringsA(void){ char*p=malloc(g_environment_size+1); memcpy(p,g_environment,g_environment_size); p[g_environment_size]=0; return p; }
MS static u16 *k_GetEnvironmentStringsW(void){ return widen(g_environment,g_environment_size); }
static int g_show_window=-1; static void *g_module_base;
MS static void *k_GetModuleHandle(void*n){ return n?0:g_module_base; }
MS static void k_GetStartupInfo(u8*p){ memset(p,0xAB,104); memset(p,0,104); *(u32*)p=104; if(g_show_window>=0){ *(u32*)(p+60)=1; *(u16*)(p+64)=(u16)g_show_window; } else *(u16*)(p+64)=77; }
MS static u32 k_GetCurrentDirectoryA(u32 n, char*b){ char c[4096],w[4096]; if(!getcwd(c,sizeof c)) return 0; win_path(c,w,sizeof w); u32 l=strlen(w); if(n<l+1) return l+1; memcpy(b,w,l+1); return l; }
MS static u32 k_GetModuleFileNameA(void*m,char*b,u32 n){ u32 l=strlen(g_exe_path); if(l+1>n){ if(n){memcpy(b,g_exe_path,n-1);b[n-1]=0;} return n; } memcpy(b,g_exe_path,l+1); return l; }
struct sysinfo_w{ u32 oem; u32 page; void*lo,*hi; u64 mask; u32 nproc,type,gran; u16 lev,rev; };
MS static void k_GetSystemInfo(struct sysinfo_w*s){ memset(s,0,sizeof *s); s->oem=9; s->page=0x1000; s->lo=(void*)0x10000; s->hi=(void*)0x7ffffffeffff; s->mask=0xff; s->nproc=8; s->type=8664; s->gran=0x10000; }
struct systime{ u16 y,mo,dow,d,h,mi,s,ms; };
MS static void k_GetSystemTime(struct systime*t){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); struct tm tm; gmtime_r(&ts.tv_sec,&tm); *t=(struct systime){tm.tm_year+1900,tm.tm_mon+1,tm.tm_wday,tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec,ts.tv_nsec/1000000}; }
MS static s32 k_SystemTimeToFileTime(struct systime*t, struct ft*f){ struct tm tm={.tm_year=t->y-1900,.tm_mon=t->mo-1,.tm_mday=t->d,.tm_hour=t->h,.tm_min=t->mi,.tm_sec=t->s}; struct timespec ts={timegm(&tm),t->ms*1000000}; *f=ft_of(ts); return 1; }
MS static u64 k_GetTickCount64(void){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec*1000ull+ts.tv_nsec/1000000; }
MS static u32 k_GetTickCount(void){ return (u32)k_GetTickCount64(); }
MS static s32 k_QPC(s64*o){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); *o=ts.tv_sec*10000000ll+ts.tv_nsec/100; return 1; }
MS static s32 k_QPF(s64*o){ *o=10000000; return 1; }
MS static s32 k_IsDebuggerPresent(void){ return 0; }
MS static void k_DebugBreak(void){ raise(SIGTRAP); }
MS static u32 k_pid(void){ return getpid(); }
MS static u32 k_tid(void){ return syscall(SYS_gettid); }
MS static void k_Sleep(u32 ms){ usleep(ms*1000); }
MS static void *k_GlobalAlloc(u32 f,u64 n){ return calloc(1,n?n:1); }
MS static void *k_GlobalFree(void*p){ free(p); return 0; }
MS static void *k_HeapAlloc(void*h,u32 f,u64 n){ return calloc(1,n?n:1); }
MS static void *k_GetProcessHeap(void){ return (void*)0x77; }
MS static s32 k_HeapFree(void*h,u32 f,void*p){ free(p); return 1; }
MS static __attribute__((noreturn)) void k_ExitProcess(u32 c){ // exit codes above 255 go through a side channel
    extern __attribute__((noreturn)) void finish(u32); finish(c); }
static u32 *g_exit_slot; // shared with the server
__attribute__((noreturn)) void finish(u32 c){ if(g_exit_slot){ g_exit_slot[0]=1; g_exit_slot[1]=c; } _exit(c&0xff); }
// virtual memory
struct region{ void*p; u64 n; struct region*next; }; static struct region*regions; static pthread_mutex_t rm=PTHREAD_MUTEX_INITIALIZER;
static int prot_of(u32 p){ switch(p&0xff){ case 1: return PROT_NONE; case 2: return PROT_READ; case 4: case 8: return PROT_READ|PROT_WRITE; case 0x10: case 0x20: return PROT_READ|PROT_EXEC; default: return PROT_READ|PROT_WRITE|PROT_EXEC; } }
MS static void *k_VirtualAlloc(void*a,u64 n,u32 type,u32 prot){
    if(type&0x2000 || (!a && (type&0x1000))){
        u64 sz=(n+0xffff)&~0xffffull; void*p;
        if(a){ u64 aa=(u64)a&~0xffffull; p=mmap((void*)aa,sz+((u64)a-aa),(type&0x1000)?prot_of(prot):PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p==MAP_FAILED){ last_error=487; return 0; } }
        else { char*q=mmap(0,sz+0x10000,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(q==MAP_FAILED){ last_error=8; return 0; } char*al=(char*)(((u64)q+0xffff)&~0xffffull); if(al>q) munmap(q,al-q); char*e=q+sz+0x10000; if(e>al+sz) munmap(al+sz,e-(al+sz)); p=al; if(type&0x1000) mprotect(p,sz,prot_of(prot)); }
        struct region*r=malloc(sizeof*r); r->p=p; r->n=sz; pthread_mutex_lock(&rm); r->next=regions; regions=r; pthread_mutex_unlock(&rm); return p;
    }
    u64 lo=(u64)a&~0xfffull, hi=((u64)a+n+0xfff)&~0xfffull; if(mprotect((void*)lo,hi-lo,prot_of(prot))){ last_error=487; return 0; } return a; }
MS static s32 k_VirtualFree(void*a,u64 n,u32 type){ if(type&0x8000){ pthread_mutex_lock(&rm); struct region**q=&regions; for(;*q;q=&(*q)->next) if((*q)->p==a){ struct region*r=*q; *q=r->next; pthread_mutex_unlock(&rm); munmap(r->p,r->n); free(r); return 1; } pthread_mutex_unlock(&rm); return 0; } madvise(a,n,MADV_DONTNEED); mprotect(a,n,PROT_NONE); return 1; }
MS static s32 k_VirtualProtect(void*a,u64 n,u32 p,u32*old){ u64 lo=(u64)a&~0xfffull, hi=((u64)a+n+0xfff)&~0xfffull; if(old)*old=4; return mprotect((void*)lo,hi-lo,prot_of(p))==0; }
// events / threads / semaphores
MS static void *k_CreateEventA(void*sa,s32 manual,s32 init,char*n){ struct handle*h=new_handle(H_EVENT); h->manual=manual; h->signaled=init; return h; }
MS static s32 k_SetEvent(struct handle*h){ pthread_mutex_lock(&h->m); h->signaled=1; h->gen++; pthread_cond_broadcast(&h->c); pthread_mutex_unlock(&h->m); return 1; }
MS static s32 k_ResetEvent(struct handle*h){ pthread_mutex_lock(&h->m); h->signaled=0; pthread_mutex_unlock(&h->m); return 1; }
MS static void *k_CreateSemaphoreA(void*sa,s32 init,s32 max,char*n){ struct handle*h=new_handle(H_SEM); h->count=init; return h; }
MS static s32 k_ReleaseSemaphore(struct handle*h,s32 n,s32*prev){ pthread_mutex_lock(&h->m); if(prev)*prev=h->count; h->count+=n; pthread_cond_broadcast(&h->c); pthread_mutex_unlock(&h->m); return 1; }
MS static u32 k_WaitForSingleObject(struct handle*h,u32 ms){
    struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_sec+=ms/1000; ts.tv_nsec+=(ms%1000)*1000000l; if(ts.tv_nsec>=1000000000l){ts.tv_nsec-=1000000000l;ts.tv_sec++;}
    pthread_mutex_lock(&h->m); u64 g=h->gen; u32 r=0;
    for(;;){ int ok; if(h->kind==H_EVENT) ok=h->signaled|| (h->manual && h->gen!=g); else if(h->kind==H_SEM) ok=h->count>0; else ok=h->done;
        if(ok){ if(h->kind==H_EVENT && !h->manual) h->signaled=0; if(h->kind==H_SEM) h->count--; break; }
        if(ms==0xffffffff) pthread_cond_wait(&h->c,&h->m); else if(pthread_cond_timedwait(&h->c,&h->m,&ts)==ETIMEDOUT){ r=258; break; } }
    pthread_mutex_unlock(&h->m); return r; }
struct thr{ MS u32 (*f)(void*); void*p; struct handle*h; };
static void on_signal(int s, siginfo_t*si, void*uc);
static void install_handlers(void);
static void alt_stack(void){ stack_t ss={0}; ss.ss_size=65536; ss.ss_sp=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sigaltstack(&ss,0); }
static void *thread_main(void*a){ struct thr*t=a; alt_stack(); setup_teb(0,(void*)-1); t->f(t->p); pthread_mutex_lock(&t->h->m); t->h->done=1; pthread_cond_broadcast(&t->h->c); pthread_mutex_unlock(&t->h->m); return 0; }
MS static void *k_CreateThread(void*sa,u64 stack,void*f,void*p,u32 fl,u32*id){ struct thr*t=calloc(1,sizeof*t); t->f=f;t->p=p;t->h=new_handle(H_THREAD); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,stack>0x100000?stack:0x110000); if(pthread_create(&t->h->th,&at,thread_main,t)) return 0; if(id)*id=1; return t->h; }
// registry
static struct timespec g_fixed_time; static int g_have_fixed_time;
MS static void k_GetLocalTime(struct systime*t){ *t=(struct systime){2024,6,1,3,12,34,56,0}; }
MS static u32 r_Open(u64 k,char*sub,u32 o,u32 d,u64*out){ if(!g_sdk[0]) return 2; if(k==0x80000002ull) *out=0x501; else if(k==0x501) *out=0x502; else return 6; return 0; }
MS static u32 r_Query(u64 k,char*name,u32*res,u32*type,u8*data,u32*len){ if(k==0x501 && !strcasecmp(name,"KitsRoot10")){ u32 l=strlen(g_sdk)+1; if(*len<l) return 234; memcpy(data,g_sdk,l); *len=l; return 0; } if(k==0x502){ u32 one=1; memcpy(data,&one,4); *len=4; return 0; } return 2; }
MS static u32 r_Enum(u64 k,u32 i,char*name,u32*len,u32*r,char*c,u32*cl,void*t){ if(k!=0x501||i>0) return 259; strcpy(name,"10.0.1.0"); *len=8; return 0; }
MS static u32 r_Close(u64 k){ return 0; }
// crt
MS static void *c_malloc(u64 n){ return malloc(n?n:1); }
MS static void *c_calloc(u64 a,u64 b){ return calloc(a?a:1,b?b:1); }
MS static void *c_realloc(void*p,u64 n){ return realloc(p,n); }
MS static void c_free(void*p){ free(p); }
// glibc rounds some subnormals the wrong way, so the conversion is done here. p: significant bits, emin: exponent of the least subnormal
static void fpround(unsigned long long v,long x,int st,int p,int emin,unsigned long long*m,int*ex){
    // v.st * 2^x: keep p bits, fewer for subnormals
    if(v){ while(!(v>>63)){ v<<=1; x--; } }
    long keep=p; if(x+64-p<emin) keep=x+64-emin;
    if(!v||keep<0){ *m=0; *ex=0; return; }
    unsigned long long r=keep==0?0:v>>(64-keep), rest=keep==0?v:v<<keep;
    if(rest>>63&&((rest<<1)||st||(r&1))) r++;
    *m=r; *ex=x+64-keep;
}
#define BW 256
typedef struct { unsigned w[BW]; } big;
static void bmul(big*a,unsigned k,unsigned c){ unsigned long long t=c; for(int i=0;i<BW;i++){ t+=(unsigned long long)a->w[i]*k; a->w[i]=t; t>>=32; } }
static int bbits(const big*a){ for(int i=BW-1;i>=0;i--) if(a->w[i]) return i*32+32-__builtin_clz(a->w[i]); return 0; }
static void bshl(big*a,int n){ int q=n/32,r=n%32; for(int i=BW-1;i>=0;i--){ unsigned h=i-q>=0?a->w[i-q]:0,l=i-q-1>=0?a->w[i-q-1]:0; a->w[i]=r?(h<<r)|(l>>(32-r)):h; } }
static void bshr1(big*a){ for(int i=0;i<BW;i++) a->w[i]=(a->w[i]>>1)|(i+1<BW?a->w[i+1]<<31:0); }
static int bcmp_(const big*a,const big*b){ for(int i=BW-1;i>=0;i--) if(a->w[i]!=b->w[i]) return a->w[i]<b->w[i]?-1:1; return 0; }
static void bsub(big*a,const big*b){ long long t=0; for(int i=0;i<BW;i++){ t+=(long long)a->w[i]-b->w[i]; a->w[i]=t; t>>=32; } }
static int fpparse(const char*s,char**e,int p,int emin,unsigned long long*m,int*ex){
    const char*q=s; unsigned long long v=0; long x=0; int st=0,dot=0,any=0; char*t;
    if(q[0]=='0'&&(q[1]|32)=='x'){
        for(q+=2;;q++){
            int d; if(*q=='.'&&!dot){ dot=1; continue; }
            if(*q>='0'&&*q<='9') d=*q-'0'; else if((*q|32)>='a'&&(*q|32)<='f') d=(*q|32)-'a'+10; else break;
            any=1; if(v>>60){ st|=d!=0; x+=dot?0:4; } else { v=v*16+d; x-=dot?4:0; }
        }
        if(!any||(*q|32)!='p') return 0;
        long k=strtol(q+1,&t,10); if(t==q+1) return 0;
        if(k>100000) k=100000; if(k<-100000) k=-100000;
        if(e) *e=t;
        fpround(v,x+k,st,p,emin,m,ex); return 1;
    }
    static __thread big N,D; memset(&N,0,sizeof N); memset(&D,0,sizeof D); int nd=0,extra=0;
    for(;;q++){
        if(*q=='.'&&!dot){ dot=1; continue; }
        if(*q<'0'||*q>'9') break;
        any=1;
        if(nd==0&&*q=='0'){ x-=dot; continue; }
        if(nd<800){ bmul(&N,10,*q-'0'); nd++; x-=dot; } else { extra|=*q!='0'; x+=!dot; }
    }
    if(!any) return 0;
    t=(char*)q;
    if((*q|32)=='e'){ char*u; long k=strtol(q+1,&u,10); if(u!=q+1&&q[1]!=' '){ t=u; if(k>100000) k=100000; if(k<-100000) k=-100000; x+=k; } }
    if(nd==0){ if(e) *e=t; *m=0; *ex=0; return 1; }
    if(nd+x>320||nd+x<-340) return 0;
    if(extra){ bmul(&N,10,1); x--; }
    if(e) *e=t;
    D.w[0]=1;
    for(long i=0;i<x;i++) bmul(&N,10,0);
    for(long i=0;i<-x;i++) bmul(&D,10,0);
    int sh=64-(bbits(&N)-bbits(&D));        // N * 2^sh / D has 64 or 65 bits
    if(sh>0) bshl(&N,sh); else bshl(&D,-sh);
    bshl(&D,65);
    unsigned __int128 Q=0;
    for(int i=65;i>=0;i--){ if(bcmp_(&N,&D)>=0){ bsub(&N,&D); Q|=(unsigned __int128)1<<i; } bshr1(&D); }
    st=bbits(&N)!=0; long xx=-sh;
    while(Q>>64){ st|=(int)(Q&1); Q>>=1; xx++; }
    fpround((unsigned long long)Q,xx,st,p,emin,m,ex); return 1;
}
MS static double c_strtod(const char*s,char**e){ unsigned long long m; int x; if(fpparse(s,e,53,-1074,&m,&x)) return ldexp((double)m,x); return strtod(s,e); }
MS static float c_strtof(const char*s,char**e){ unsigned long long m; int x; if(fpparse(s,e,24,-149,&m,&x)) return (float)ldexp((double)m,x); return strtof(s,e); }
MS static s32 c_system(const char*s){ msg("PEX-SYSTEM: %s\n",s); return 0; }
MS static u64 c_strlen(const char*s){ return strlen(s); }
MS static s32 c_strcmp(const char*a,const char*b){ return strcmp(a,b); }
MS static void *c_memcpy(void*d,const void*s,u64 n){ return memmove(d,s,n); }
MS static void *c_memset(void*d,int c,u64 n){ return memset(d,c,n); }
MS static s32 c_memcmp(const void*a,const void*b,u64 n){ return memcmp(a,b,n); }
static u64 out_total;
static void outbytes(const char*p,size_t n){ while(n){ ssize_t r=write(g_stdout_fd,p,n); if(r<=0) die(91); p+=r; n-=r; } }
// printf with a Microsoft va_list (array of 8 byte slots), LLP64 conversions
static int ms_format(char*out,size_t cap,const char*f,u64*va){
    size_t n=0; 
    #define PUT(c) do{ if(n+1<cap) out[n]=(c); n++; }while(0)
    while(*f){ if(*f!='%'){ PUT(*f); f++; continue; } f++; if(*f=='%'){ PUT('%'); f++; continue; }
        char spec[64]="%"; int k=1; char num[16];
        while(*f && strchr("-+ #0",*f) && k<20) spec[k++]=*f++;
        if(*f=='*'){ int w=(int)*va++; k+=snprintf(spec+k,16,"%d",w); f++; (void)num; } else while(*f>='0'&&*f<='9'&&k<30) spec[k++]=*f++;
        if(*f=='.'){ spec[k++]='.'; f++; if(*f=='*'){ int w=(int)*va++; if(w<0) k--; else k+=snprintf(spec+k,16,"%d",w); f++; } else while(*f>='0'&&*f<='9'&&k<40) spec[k++]=*f++; }
        int len=0; // 0 int, 1 long long, -1 short, -2 char
        for(;;){ if(*f=='l'){ if(f[1]=='l'){len=1;f+=2;} else f++; } else if(*f=='h'){ if(f[1]=='h'){len=-2;f+=2;} else {len=-1;f++;} } else if(*f=='I'&&f[1]=='6'&&f[2]=='4'){len=1;f+=3;} else if(*f=='I'&&f[1]=='3'&&f[2]=='2'){f+=3;} else if(*f=='z'||*f=='j'||*f=='t'){len=1;f++;} else if(*f=='L'){f++;} else if(*f=='w'){f++;} else break; }
        char c=*f; if(c) f++; char tmp[1200]; int m=0;
        switch(c){
            case 'd': case 'i': { s64 v=(s64)*va++; if(len==0)v=(int)v; else if(len==-1)v=(short)v; else if(len==-2)v=(signed char)v; spec[k++]='l';spec[k++]='l';spec[k++]='d';spec[k]=0; m=snprintf(tmp,sizeof tmp,spec,(long long)v); break; }
            case 'u': case 'x': case 'X': case 'o': { u64 v=*va++; if(len==0)v=(u32)v; else if(len==-1)v=(u16)v; else if(len==-2)v=(u8)v; spec[k++]='l';spec[k++]='l';spec[k++]=c;spec[k]=0; m=snprintf(tmp,sizeof tmp,spec,(unsigned long long)v); break; }
            case 'c': { spec[k++]='c';spec[k]=0; m=snprintf(tmp,sizeof tmp,spec,(int)*va++); break; }
            case 'p': { m=snprintf(tmp,sizeof tmp,"%016llX",(unsigned long long)*va++); break; }
            case 's': { spec[k++]='s';spec[k]=0; char*s=(char*)*va++; m=snprintf(tmp,sizeof tmp,spec,s?s:"(null)"); break; }
            case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': { double d; memcpy(&d,va++,8); spec[k++]=c;spec[k]=0; m=snprintf(tmp,sizeof tmp,spec,d); break; }
            default: PUT('%'); if(c)PUT(c); continue; }
        if(m>(int)sizeof tmp-1) m=sizeof tmp-1;
        for(int i=0;i<m;i++) PUT(tmp[i]); }
    if(cap) out[n<cap?n:cap-1]=0;
    return (int)n; }
MS static s32 c_stdio_vfprintf(u64 opt,void*stream,const char*f,void*loc,u64*va){ static char b[1<<20]; int n=ms_format(b,sizeof b,f,va); outbytes(b,n); return n; }
MS static s32 c_stdio_vsprintf(u64 opt,char*buf,u64 cap,const char*f,void*loc,u64*va){ int n=ms_format(buf,buf?cap:0,f,va); return n; }
MS static s32 c_vprintf(const char*f,u64*va){ return c_stdio_vfprintf(0,0,f,0,va); }
MS __attribute__((noinline)) static s32 c_printf(const char*f,u64 a,u64 b,u64 c,u64 d,u64 e,u64 g,u64 h,u64 i,u64 j,u64 k,u64 l,u64 m2){ u64 v[]={a,b,c,d,e,g,h,i,j,k,l,m2}; return c_stdio_vfprintf(0,0,f,0,v); }
MS static s32 c_puts(const char*s){ outbytes(s,strlen(s)); outbytes("\n",1); return 0; }
MS static s32 c_putchar(s32 c){ char b=c; outbytes(&b,1); return c; }
MS static void *c_iob(u32 n){ static char x[3]; return &x[n]; }
MS static s32 c_fflush(void*p){ return 0; }
static s32 crt_argc; static char**crt_argv; static u16**crt_wargv;
MS static s32 *c_p_argc(void){ return &crt_argc; } MS static char***c_p_argv(void){ return &crt_argv; } MS static u16***c_p_wargv(void){ return &crt_wargv; }
MS static __attribute__((noreturn)) void c_exit(s32 c){ finish(c); }
MS static __attribute__((noreturn)) void c_abort(void){ msg("PEX-ABORT\n"); finish(3); }

// ---------------------------------------------------------------- product tests: log and checks
#define LOG_MAX (1<<20)
static u64 *tlog; static u64 tlog_n; static u32 t_flags; // 1: misaligned stack at a call, 2: unwind failure, 4: non-volatile register clobbered, 8: DF/x87/MXCSR changed
static u64 tlog_hash; static u64 tlog_total;
static inline void log_u64(u64 v){ if(tlog_n<LOG_MAX) tlog[tlog_n++]=v; tlog_total++; tlog_hash=(tlog_hash^v)*0x9E3779B97F4A7C15ull; tlog_hash^=tlog_hash>>29; }
MS __attribute__((noinline)) static void h_log(u64 v){ log_u64(v); }
MS __attribute__((noinline)) static void h_f64(double v){ u64 b; memcpy(&b,&v,8); if(v!=v) b=0x7ff8000000000000ull; log_u64(b); }
MS __attribute__((noinline)) static void h_f32(float v){ u32 b; memcpy(&b,&v,4); if(v!=v) b=0x7fc00000u; log_u64(b); }
MS __attribute__((noinline)) static void h_mem(const u8*p,u64 n){ log_u64(n); u64 v=0; for(u64 i=0;i<n;i++){ v=v<<8|p[i]; if((i&7)==7){ log_u64(v); v=0; } } if(n&7) log_u64(v); }
MS __attribute__((noinline)) static void h_str(const char*s){ h_mem((const u8*)s,strlen(s)+1); }
u32 t_flags_sym;
struct image{ u8*base; u64 size; u32 entry; u64 pref; u8*exp; u32 exp_rva,exp_size; u32 pdata,pdata_size; u16 chars,dllchars; int bad; char err[256]; };
static struct image main_image; struct image prod;
#include "unwind.h"
static sigjmp_buf *g_jmp; static volatile int g_sig; static u64 g_sig_ip;
#include "seh.h"
// every log import goes through a stub which records whether the stack was aligned at the call
#define STUB(name,target) __asm__(".text\n.globl " #name "\n" #name ":\n  test $15, %spl\n  jz 1f\n  lea -8(%rsp),%rax\n test $15,%al\n jz 2f\n1: orl $1, t_flags_sym(%rip)\n2: jmp " #target "_sym\n"); extern char name[];
MS void h_log_sym(u64 v){ h_log(v); } MS void h_f64_sym(double v){ h_f64(v); } MS void h_f32_sym(float v){ h_f32(v); } MS void h_mem_sym(const u8*p,u64 n){ h_mem(p,n); } MS void h_str_sym(const char*s){ h_str(s); }
STUB(s_h_log,h_log) STUB(s_h_f64,h_f64) STUB(s_h_f32,h_f32) STUB(s_h_mem,h_mem) STUB(s_h_str,h_str)

__asm__(".text\n.globl k_chkstk\nk_chkstk:\n ret\n"); extern char k_chkstk[];
MS static void unresolved(void){ msg("PEX-UNRESOLVED-IMPORT-CALLED\n"); finish(250); }

struct imp{ const char*n; void*f; };
MS static void *h_export(const char*name);
static struct imp imports[]={
#define I(n,f) {#n,(void*)f},
I(GetLastError,k_GetLastError) I(SetLastError,k_SetLastError) I(GetStdHandle,k_GetStdHandle) I(CloseHandle,k_CloseHandle) I(CreateFileA,k_CreateFileA) I(GetFileInformationByHandle,k_GetFileInformationByHandle) I(GetFileSizeEx,k_GetFileSizeEx) I(GetFileSize,k_GetFileSize) I(ReadFile,k_ReadFile) I(WriteFile,k_WriteFile) I(GetFileAttributesA,k_GetFileAttributesA) I(DeleteFileA,k_DeleteFileA) I(FindFirstFileA,k_FindFirstFileA) I(FindNextFileA,k_FindNextFileA) I(FindClose,k_FindClose) I(GetCommandLineA,k_GetCommandLineA) I(GetCommandLineW,k_GetCommandLineW) I(GetEnvironmentStringsA,k_GetEnvironmentStringsA) I(GetEnvironmentStrings,k_GetEnvironmentStringsA) I(GetEnvironmentStringsW,k_GetEnvironmentStringsW) I(GetModuleHandleA,k_GetModuleHandle) I(GetModuleHandleW,k_GetModuleHandle) I(GetStartupInfoA,k_GetStartupInfo) I(GetStartupInfoW,k_GetStartupInfo) I(GetCurrentDirectoryA,k_GetCurrentDirectoryA) I(GetModuleFileNameA,k_GetModuleFileNameA) I(GetSystemInfo,k_GetSystemInfo) I(GetSystemTime,k_GetSystemTime) I(GetLocalTime,k_GetLocalTime) I(SystemTimeToFileTime,k_SystemTimeToFileTime) I(GetTickCount64,k_GetTickCount64) I(GetTickCount,k_GetTickCount) I(QueryPerformanceCounter,k_QPC) I(QueryPerformanceFrequency,k_QPF) I(IsDebuggerPresent,k_IsDebuggerPresent) I(DebugBreak,k_DebugBreak) I(GetCurrentProcessId,k_pid) I(GetCurrentThreadId,k_tid) I(Sleep,k_Sleep) I(GlobalAlloc,k_GlobalAlloc) I(GlobalFree,k_GlobalFree) I(LocalAlloc,k_GlobalAlloc) I(LocalFree,k_GlobalFree) I(HeapAlloc,k_HeapAlloc) I(HeapFree,k_HeapFree) I(GetProcessHeap,k_GetProcessHeap) I(ExitProcess,k_ExitProcess) I(VirtualAlloc,k_VirtualAlloc) I(VirtualFree,k_VirtualFree) I(VirtualProtect,k_VirtualProtect) I(CreateEventA,k_CreateEventA) I(SetEvent,k_SetEvent) I(ResetEvent,k_ResetEvent) I(CreateSemaphoreA,k_CreateSemaphoreA) I(ReleaseSemaphore,k_ReleaseSemaphore) I(WaitForSingleObject,k_WaitForSingleObject) I(CreateThread,k_CreateThread) I(RegOpenKeyExA,r_Open) I(RegQueryValueExA,r_Query) I(RegEnumKeyExA,r_Enum) I(RegCloseKey,r_Close) I(malloc,c_malloc) I(calloc,c_calloc) I(realloc,c_realloc) I(free,c_free) I(strtod,c_strtod) I(strtof,c_strtof) I(system,c_system) I(strlen,c_strlen) I(strcmp,c_strcmp) I(memcpy,c_memcpy) I(memmove,c_memcpy) I(memset,c_memset) I(memcmp,c_memcmp) I(printf,c_printf) I(puts,c_puts) I(putchar,c_putchar) I(fflush,c_fflush) I(__acrt_iob_func,c_iob) I(__stdio_common_vfprintf,c_stdio_vfprintf) I(__stdio_common_vsprintf,c_stdio_vsprintf) I(__p___argc,c_p_argc) I(__p___argv,c_p_argv) I(__p___wargv,c_p_wargv) I(exit,c_exit) I(_exit,c_exit) I(abort,c_abort) I(vprintf,c_vprintf)
I(__chkstk,k_chkstk)
I(h_log,s_h_log) I(h_f64,s_h_f64) I(h_f32,s_h_f32) I(h_mem,s_h_mem) I(h_str,s_h_str) I(h_unwind,s_h_unwind) I(h_step,s_h_step) I(h_export,h_export) I(RaiseException,s_RaiseException) I(__C_specific_handler,k_C_specific_handler)
};

// ---------------------------------------------------------------- image loading
static struct image *find_image(void*ip){ struct image*a[2]={&main_image,&prod}; for(int i=0;i<2;i++) if(a[i]->base && (u8*)ip>=a[i]->base && (u8*)ip<a[i]->base+a[i]->size) return a[i]; return 0; }
static u8 *slurp(const char*p,u64*n){ int fd=open(p,O_RDONLY); if(fd<0) return 0; struct stat st; fstat(fd,&st); u8*b=malloc(st.st_size+1); u64 t=0; while(t<(u64)st.st_size){ ssize_t r=read(fd,b+t,st.st_size-t); if(r<=0) break; t+=r; } close(fd); *n=t; return b; }
#define FAIL(...) do{ snprintf(im->err,sizeof im->err,__VA_ARGS__); im->bad=1; return -1; }while(0)
static struct imp extra_imports[64]; static int n_extra;
// alpha.dll and beta.dll: al_0..al_31 / be_0..be_31 (16..23 by the ordinals 100+i) return 0xA100+i / 0xBE00+i, ald_0..7 / bed_0..7 are 0xA1D0+i / 0xBED0+i
static void *fake_import(const char*dll,const char*n,u32 ordinal){ int b=!strcmp(dll,"beta.dll"); if(!b&&strcmp(dll,"alpha.dll")) return 0; static u8*code; static u64 data[16]; 
    if(!code){ code=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); for(int i=0;i<64;i++){ code[16*i]=0xb8; *(u32*)(code+16*i+1)=(i<32?0xA100:0xBE00)+(i&31); code[16*i+5]=0xc3; } mprotect(code,4096,PROT_READ|PROT_EXEC); for(int i=0;i<16;i++) data[i]=(i<8?0xA1D0:0xBED0)+(i&7); }
    if(!n) return ordinal>=116&&ordinal<=123?code+16*(32*b+ordinal-100):0;
    const char*f=b?"be_":"al_",*d=b?"bed_":"ald_"; char*e; long i; if(!strncmp(n,f,3)){ i=strtol(n+3,&e,10); if(!*e&&i>=0&&i<32&&(i<16||i>23)) return code+16*(32*b+i); } if(!strncmp(n,d,4)){ i=strtol(n+4,&e,10); if(!*e&&i>=0&&i<8) return data+8*b+i; } return 0; }
MS static void *h_export(const char*name);
static void *resolve(const char*dll,const char*n){ void*f=fake_import(dll,n,0); if(f) return f; for(size_t i=0;i<sizeof imports/sizeof*imports;i++) if(!strcmp(imports[i].n,n)) return imports[i].f; return 0; }
static int load_image(struct image*im,const char*path,u64 want_base){
    memset(im,0,sizeof*im); u64 n; u8*f=slurp(path,&n); if(!f) FAIL("no file %s",path);
    if(n<0x40||f[0]!='M'||f[1]!='Z') FAIL("not MZ"); u32 pe=*(u32*)(f+0x3c); if(pe+0x108>n||memcmp(f+pe,"PE\0\0",4)) FAIL("not PE");
    u8*coff=f+pe+4; u16 ns=*(u16*)(coff+2), os=*(u16*)(coff+16); im->chars=*(u16*)(coff+18); u8*o=coff+20; if(*(u16*)o!=0x20b) FAIL("not PE32+");
    im->entry=*(u32*)(o+16); im->pref=*(u64*)(o+24); u32 szi=*(u32*)(o+56), szh=*(u32*)(o+60); im->dllchars=*(u16*)(o+70); u32 nd=*(u32*)(o+108); u32*dd=(u32*)(o+112);
    u64 base=want_base?want_base:im->pref; u64 sz=(szi+0xfffull)&~0xfffull; im->size=sz;
    void*m=MAP_FAILED; if(base!=1) m=mmap((void*)base,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); if(m==MAP_FAILED){ if(want_base&&want_base!=1) FAIL("cannot map at %llx",(unsigned long long)base); m=mmap(0,sz+0xf000,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); /* bases are multiples of 64K */ if(m!=MAP_FAILED){ u8*al=(u8*)(((u64)m+0xffff)&~0xffffull); if(al!=m) munmap(m,al-(u8*)m); if(al+sz!=(u8*)m+sz+0xf000) munmap(al+sz,(u8*)m+0xf000-al); m=al; } } if(m==MAP_FAILED) FAIL("map");
    im->base=m; if(szh>n) FAIL("headers exceed the file"); if(szh>szi) FAIL("headers exceed the image"); memcpy(m,f,szh); u8*s=o+os;
    for(int i=0;i<ns;i++,s+=40){ u32 vs=*(u32*)(s+8),va=*(u32*)(s+12),rs=*(u32*)(s+16),ra=*(u32*)(s+20); u32 c=rs<vs?rs:vs; if(!vs) c=rs; if((u64)ra+c>n) FAIL("section %d raw data outside the file",i); if((u64)va+(vs?vs:rs)>sz) FAIL("section %d outside the image",i); memcpy(im->base+va,f+ra,c); }
    #define DIR(i) (nd>(i)?dd[2*(i)]:0), sz_##i=nd>(i)?dd[2*(i)+1]:0
    u32 d_exp=DIR(0); u32 d_imp=DIR(1); u32 d_exc=DIR(3); u32 d_rel=DIR(5); u32 d_tls=DIR(9); (void)sz_1;
    im->exp_rva=d_exp; im->exp_size=sz_0; im->pdata=d_exc; im->pdata_size=sz_3;
    u64 delta=(u64)im->base-im->pref;
    if(delta){ if(im->chars&1) FAIL("relocations stripped, cannot rebase"); u32 p=d_rel; while(p<d_rel+sz_5){ u32 pg=*(u32*)(im->base+p), bs=*(u32*)(im->base+p+4); if(bs<8||p+bs>d_rel+sz_5) FAIL("bad relocation block"); for(u32 i=8;i+1<bs;i+=2){ u16 e=*(u16*)(im->base+p+i); u32 t=e>>12,off=pg+(e&0xfff); if(t==0) continue; if(t!=10) FAIL("relocation type %u",t); if((u64)off+8>sz) FAIL("relocation outside the image"); *(u64*)(im->base+off)+=delta; } p+=bs; } }
    if(d_imp){ for(u32 p=d_imp;;p+=20){ if((u64)p+20>sz) FAIL("import table outside the image"); u32 lk=*(u32*)(im->base+p),nm=*(u32*)(im->base+p+12),fa=*(u32*)(im->base+p+16); if(!nm&&!fa) break; if(!lk) lk=fa; const char*dll=(char*)im->base+nm; for(u32 k=0;;k++){ if((u64)lk+8*k+8>sz) FAIL("import lookup outside the image"); u64 e=*(u64*)(im->base+lk+8*k); if(!e) break; void*fn=0; const char*name="ordinal"; if(!(e>>63)){ if(e+3>sz) FAIL("import name outside the image"); name=(char*)im->base+e+2; fn=resolve(dll,name); } else fn=fake_import(dll,0,e&0xffff); if(!fn){ fn=(void*)unresolved; if(getenv("PEX_VERBOSE")) fprintf(stderr,"unresolved %s!%s\n",dll,name); } *(u64*)(im->base+fa+8*k)=(u64)fn; } } }
    if(d_tls){ u64*t=(u64*)(im->base+d_tls); if(im==&prod||!tls_start){ tls_start=(u8*)t[0]; tls_raw=t[1]-t[0]; tls_size=tls_raw+*(u32*)(t+4); if(t[2]) *(u32*)t[2]=tls_index_value; } }
    // protections by section
    s=o+os; mprotect(im->base,0x1000,PROT_READ);
    for(int i=0;i<ns;i++,s+=40){ u32 vs=*(u32*)(s+8),va=*(u32*)(s+12),rs=*(u32*)(s+16),ch=*(u32*)(s+36); u64 len=((vs?vs:rs)+0xfffull)&~0xfffull; if(!len) continue; int p=0; if(ch&0x40000000)p|=PROT_READ; if(ch&0x80000000)p|=PROT_WRITE; if(ch&0x20000000)p|=PROT_EXEC|PROT_READ; if(va&0xfff) FAIL("section %d not page aligned",i); mprotect(im->base+va,len,p); }
    free(f); return 0; }
static void *export_of(struct image*im,const char*name){ if(!im->exp_rva) return 0; u8*b=im->base; u32*e=(u32*)(b+im->exp_rva); u32 nn=e[6]; u32*fn=(u32*)(b+e[7]),*nm=(u32*)(b+e[8]); u16*od=(u16*)(b+e[9]);
    // binary search, as the Windows loader does: an unsorted table must not go unnoticed
    s64 lo=0,hi=(s64)nn-1; while(lo<=hi){ s64 mid=(lo+hi)/2; int c=strcmp(name,(char*)b+nm[mid]); if(!c) return b+fn[od[mid]]; if(c<0) hi=mid-1; else lo=mid+1; } return 0; }

MS static void *h_export(const char*name){ return export_of(&prod,name); }

// ---------------------------------------------------------------- signals
static int g_in_compiler;
static void on_signal(int s, siginfo_t*si, void*ucp){
    ucontext_t*uc=ucp; if(seh_on&&g_jmp&&seh_signal(s,si,uc)) return; u64 ip=uc->uc_mcontext.gregs[REG_RIP];
    if(g_jmp){ g_sig=s; struct image*im=find_image((void*)ip); g_sig_ip=im?ip-(u64)im->base:0; siglongjmp(*g_jmp,1); }
    struct image*im=find_image((void*)ip); 
    msg("\nPEX-CRASH signal %d at %s+0x%llx address %p\n",s,im==&main_image?"hlc":im?"image":"?",(unsigned long long)(im?ip-(u64)im->base:ip),si->si_addr);
    signal(s,SIG_DFL); raise(s); _exit(99); }
static void install_handlers(void){ struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=on_signal; a.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; int l[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGTRAP,SIGVTALRM,SIGUSR1}; for(int i=0;i<7;i++) sigaction(l[i],&a,0); alt_stack(); }

// ---------------------------------------------------------------- calls with register checks
// call_checked(fn, new_sp, clobber): switch to new_sp, fill the non-volatile registers with sentinels, call, compare.
u64 cc_saved_rsp; u64 cc_sentinel_rsp; 
__asm__(
".text\n.globl call_checked\ncall_checked:\n"            // sysv: rdi=fn rsi=stack top (16-aligned)
" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
" mov %rsp, cc_saved_rsp(%rip)\n"
" mov %rdi,%rax\n mov %rsi,%rsp\n sub $0x100,%rsp\n"
" mov %rsp, cc_sentinel_rsp(%rip)\n"
" movabs $0x1111111122222221,%rbx\n movabs $0x1111111122222222,%rbp\n movabs $0x1111111122222223,%rsi\n movabs $0x1111111122222224,%rdi\n movabs $0x1111111122222225,%r12\n movabs $0x1111111122222226,%r13\n movabs $0x1111111122222227,%r14\n movabs $0x1111111122222228,%r15\n"
" movups cc_x(%rip),%xmm6\n movaps %xmm6,%xmm7\n movaps %xmm6,%xmm8\n movaps %xmm6,%xmm9\n movaps %xmm6,%xmm10\n movaps %xmm6,%xmm11\n movaps %xmm6,%xmm12\n movaps %xmm6,%xmm13\n movaps %xmm6,%xmm14\n movaps %xmm6,%xmm15\n"
" ldmxcsr cc_mxcsr_init(%rip)\n cld\n call *%rax\n.globl call_checked_ret\ncall_checked_ret:\n"
" mov %rsp,cc_got(%rip)\n mov %rbx,cc_got+8(%rip)\n mov %rbp,cc_got+16(%rip)\n mov %rsi,cc_got+24(%rip)\n mov %rdi,cc_got+32(%rip)\n mov %r12,cc_got+40(%rip)\n mov %r13,cc_got+48(%rip)\n mov %r14,cc_got+56(%rip)\n mov %r15,cc_got+64(%rip)\n"
" movups %xmm6,cc_gotx(%rip)\n movups %xmm7,cc_gotx+16(%rip)\n movups %xmm8,cc_gotx+32(%rip)\n movups %xmm9,cc_gotx+48(%rip)\n movups %xmm10,cc_gotx+64(%rip)\n movups %xmm11,cc_gotx+80(%rip)\n movups %xmm12,cc_gotx+96(%rip)\n movups %xmm13,cc_gotx+112(%rip)\n movups %xmm14,cc_gotx+128(%rip)\n movups %xmm15,cc_gotx+144(%rip)\n"
" pushfq\n popq cc_flags(%rip)\n stmxcsr cc_mxcsr(%rip)\n cld\n"
" mov cc_saved_rsp(%rip),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
".data\n.balign 16\ncc_mxcsr_init: .long 0x1f80,0,0,0\ncc_x: .quad 0x3333333344444444,0x5555555566666666\n.text\n");
extern void call_checked(void*fn,void*sp); extern char call_checked_ret[]; u64 cc_got[9]; u64 cc_gotx[20]; u64 cc_flags; u32 cc_mxcsr; extern u64 cc_x[2];

static void make_test_stack(void){ test_stack=mmap(0,test_stack_size+0x10000,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(test_stack+0x10000,test_stack_size,PROT_READ|PROT_WRITE); }

struct res{ u32 idx,status,flags,n; u64 total,hash; };
static void run_one(void*fn,u32 idx,int outfd,u32 maxlog){
    tlog_n=0; t_flags=0; t_flags_sym=0; tlog_hash=1; tlog_total=0; g_sig=0; stepping=0; step_count=0; sigjmp_buf jb; struct res r={idx,0,0,0}; 
    // fresh pattern in the stack area so that reads of uninitialised memory differ from zero but are reproducible
    struct itimerval it={{0,0},{4,0}}, off={{0,0},{0,0}};
    setitimer(ITIMER_VIRTUAL,&it,0);
    if(sigsetjmp(jb,1)==0){ g_jmp=&jb; unw_reset(); call_checked(fn,test_stack+0x10000+test_stack_size-0x100); g_jmp=0;
        static const u64 want[9]={0,0x1111111122222221,0x1111111122222222,0x1111111122222223,0x1111111122222224,0x1111111122222225,0x1111111122222226,0x1111111122222227,0x1111111122222228};
        int bad=0; if(cc_got[0]!=cc_sentinel_rsp) bad=1; for(int i=1;i<9;i++) if(cc_got[i]!=want[i]) bad=1; for(int i=0;i<10;i++) if(cc_gotx[2*i]!=cc_x[0]||cc_gotx[2*i+1]!=cc_x[1]) bad=1; if(bad) t_flags|=4; if((cc_flags&0x400)|| ((cc_mxcsr&0xffc0)!=0x1f80)) t_flags|=8; }
    else { g_jmp=0; r.status=g_sig; sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK,&s,0); }
    setitimer(ITIMER_VIRTUAL,&off,0);
    r.flags=t_flags|t_flags_sym; if(seh_on) r.flags|=(u32)(step_count>0xfffff?0xfffff:step_count)<<8; r.n=tlog_n>maxlog?maxlog:tlog_n; r.total=tlog_total; r.hash=tlog_hash;
    int o=g_stdout_fd; g_stdout_fd=outfd; outbytes((char*)&r,sizeof r); outbytes((char*)tlog,8ull*r.n); g_stdout_fd=o; }

static int child_tests(int n,char**a,int outfd){
    // a[0]=dll; options: base=<hex>, max=<n>, only=<i>, skip=<hex bitmap unsupported>, count=<n>
    u64 base=1; u32 maxlog=64; int only=-1; int fill=0xcd; g_path_of_image=a[0];
    for(int i=1;i<n;i++){ if(!strncmp(a[i],"base=",5)){ if(!strcmp(a[i]+5,"pref")) base=0; else base=strtoull(a[i]+5,0,16);} else if(!strncmp(a[i],"max=",4)) maxlog=atoi(a[i]+4); else if(!strcmp(a[i],"seh")) seh_on=1; else if(!strncmp(a[i],"only=",5)) only=atoi(a[i]+5); else if(!strncmp(a[i],"fill=",5)) fill=strtol(a[i]+5,0,16); }
    if(main_image.base && !base) {}
    if(load_image(&prod,a[0],base)){ int o=g_stdout_fd; g_stdout_fd=outfd; outbytes("LOADFAIL",8); outbytes(prod.err,strlen(prod.err)); g_stdout_fd=o; return 240; }
    make_test_stack(); setup_teb(test_stack,test_stack+0x10000+test_stack_size); tlog=malloc(8*LOG_MAX);
    memset(test_stack+0x10000+test_stack_size-0x20000,fill,0x20000);
    int o=g_stdout_fd; g_stdout_fd=outfd; outbytes("TESTLOG1",8); g_stdout_fd=o;
    for(int i=0;i<100000;i++){ char nm[32]; snprintf(nm,32,"t%d",i); void*fn=export_of(&prod,nm); if(!fn) break; if(only>=0&&i!=only) continue; run_one(fn,i,outfd,maxlog); }
    struct res end={0xffffffff,0,0,0}; g_stdout_fd=outfd; outbytes((char*)&end,sizeof end); return 0; }
typedef MS u32 entry_t(void*,u32,void*);
static entry_t *g_entry; 
__asm__(".text\n.globl call_on\ncall_on:\n push %rbp\n mov %rsp,%rbp\n mov %rsi,%rsp\n sub $0x40,%rsp\n mov %rdx,%rcx\n mov %r8,%rdx\n xor %r8d,%r8d\n call *%rdi\n mov %rbp,%rsp\n pop %rbp\n ret\n");
extern u64 call_on(void*fn,void*sp,void*arg);
static int child_exe(int n,char**a){
    u64 base=1; for(int i=2;i<n;i++){ if(!strcmp(a[i],"base=pref")) base=0; else if(!strncmp(a[i],"base=",5)) base=strtoull(a[i]+5,0,16);
        else if(!strncmp(a[i],"show=",5)) g_show_window=atoi(a[i]+5); else if(!strncmp(a[i],"env:",4)){ size_t l=strlen(a[i]+4)+1; if(g_environment_size+l<sizeof g_environment){ memcpy(g_environment+g_environment_size-1,a[i]+4,l); g_environment_size+=l; } } }
    g_command_line=n>1?a[1]:""; g_path_of_image=a[0];
    if(load_image(&prod,a[0],base)){ msg("PEX-LOADFAIL %s\n",prod.err); return 240; }
    g_module_base=prod.base; win_path(a[0],g_exe_path,sizeof g_exe_path);
    make_test_stack(); setup_teb(test_stack,test_stack+0x10000+test_stack_size);
    u64 r=call_on(prod.base+prod.entry,test_stack+0x10000+test_stack_size-0x100,0); finish((u32)r); }
static u8*hlc_stack; 
static int child_hlc(int n,char**a){
    // build a Windows command line
    size_t cap=16; for(int i=0;i<n;i++) cap+=2*strlen(a[i])+4; char*c=malloc(cap); size_t k=0; k+=sprintf(c,"hlc.exe");
    for(int i=0;i<n;i++){ c[k++]=' '; if(!strncmp(a[i],"RAW:",4)){ k+=sprintf(c+k,"%s",a[i]+4); continue; } int q=!a[i][0]||strpbrk(a[i]," \t\"")!=0; if(q)c[k++]='"'; for(char*p=a[i];*p;p++){ int bs=0; while(*p=='\\'){bs++;p++;} if(!*p){ for(int z=0;z<(q?2*bs:bs);z++)c[k++]='\\'; break; } if(*p=='"'){ for(int z=0;z<2*bs+1;z++)c[k++]='\\'; } else for(int z=0;z<bs;z++)c[k++]='\\'; c[k++]=*p; } if(q)c[k++]='"'; } c[k]=0; g_command_line=c;
    setup_teb(hlc_stack,hlc_stack+0x10000+0x100000); g_in_compiler=1;
    u64 r=call_on(main_image.base+main_image.entry,hlc_stack+0x10000+0x100000-0x20,0); finish((u32)r); }

static volatile sig_atomic_t got_chld; static void on_chld(int s){ got_chld=1; }
int main(int argc,char**argv){
    setvbuf(stdout,0,_IOLBF,0);
    if(argc<4||strcmp(argv[1],"server")){ fprintf(stderr,"usage\n"); return 2; }
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    snprintf(g_exe_path,sizeof g_exe_path,"%s",argv[3]);
    if(strcmp(argv[2],"-")){ if(load_image(&main_image,argv[2],0x210000000ull)){ printf("ERR %s\n",main_image.err); return 3; }
        hlc_stack=mmap(0,0x110000,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(hlc_stack+0x10000,0x100000,PROT_READ|PROT_WRITE); }
    g_exit_slot=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    sigset_t chld; sigemptyset(&chld); sigaddset(&chld,SIGCHLD); sigprocmask(SIG_BLOCK,&chld,0);
    printf("READY\n"); fflush(stdout);
    static char line[1<<20]; static char *args[4096]; 
    while(fgets(line,sizeof line,stdin)){
        char kind; int tmo,na; char outf[4096]; if(sscanf(line,"%c %d %d %4095s",&kind,&tmo,&na,outf)!=4){ printf("ERR\n"); continue; }
        char cwd[4096]; if(!fgets(line,sizeof line,stdin)) break; line[strcspn(line,"\n")]=0; snprintf(cwd,sizeof cwd,"%s",line);
        int real=0; for(int i=0;i<na;i++){ if(!fgets(line,sizeof line,stdin)) return 1; line[strcspn(line,"\n")]=0; if(i<4095) args[real++]=strdup(line); }
        g_exit_slot[0]=0;
        pid_t p=fork();
        if(!p){
            prctl(PR_SET_PDEATHSIG,SIGKILL); sigprocmask(SIG_UNBLOCK,&chld,0);
            struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); struct rlimit fl={1ull<<31,1ull<<31}; setrlimit(RLIMIT_FSIZE,&fl); 
            setpgid(0,0);
            if(chdir(cwd)) die(92); int fd=open(outf,O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0666); if(fd<0) die(93); int nul=open("/dev/null",O_RDWR); dup2(nul,0); dup2(nul,1); g_stdout_fd=fd; if(!getenv("PEX_VERBOSE")) dup2(nul,2);
            char*sdk=getenv("PEX_SDK"); if(sdk) snprintf(g_sdk,sizeof g_sdk,"%s",sdk);
            install_handlers();
            if(kind=='H') child_hlc(real,args); else if(kind=='T') finish(child_tests(real,args,fd)); else finish(child_exe(real,args)); }
        struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); int st=0; int timedout=0; struct rusage ru;
        for(;;){ pid_t w=wait4(p,&st,WNOHANG,&ru); if(w==p) break; clock_gettime(CLOCK_MONOTONIC,&t1); s64 left=tmo-((t1.tv_sec-t0.tv_sec)*1000+(t1.tv_nsec-t0.tv_nsec)/1000000); if(left<=0){ timedout=1; kill(p,SIGKILL); wait4(p,&st,0,&ru); break; } struct timespec to={left/1000,(left%1000)*1000000}; sigtimedwait(&chld,0,&to); }
        kill(-p,SIGKILL);
        u64 status; if(timedout) status=2000000; else if(g_exit_slot[0]) status=g_exit_slot[1]; else if(WIFSIGNALED(st)) status=1000000+WTERMSIG(st); else status=WEXITSTATUS(st);
        printf("%llu %lld\n",(unsigned long long)status,(long long)(ru.ru_utime.tv_sec*1000000ll+ru.ru_utime.tv_usec+ru.ru_stime.tv_sec*1000000ll+ru.ru_stime.tv_usec)); fflush(stdout);
        for(int i=0;i<real;i++) free(args[i]); }
    return 0; }
