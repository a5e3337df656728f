// Fault injector: runs a command under ptrace, counts the system calls that change the directory tree or the data of files of the
// working directory (except the harness's own files), and at call number K
//   mode 0  only lists them                          mode 1  kills the process tree before the call (crash)
//   mode 2  lets the call write PARAM bytes only and then kills it (torn write)
//   mode 3  makes the call fail with errno PARAM     mode 4  like 3, and every later data write fails too (disk full)
// usage: pt MODE K PARAM LISTFILE DIR cmd args...
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <limits.h>
static pid_t root; static char base[PATH_MAX];
typedef struct { pid_t p; int in; int fail; } th; static th T[256]; static int nT;
static th* get(pid_t p){ for(int i=0;i<nT;i++) if(T[i].p==p) return &T[i]; if(nT>=256) exit(90); T[nT].p=p;T[nT].in=0;T[nT].fail=0; return &T[nT++]; }
static void rdstr(pid_t p, unsigned long a, char*b, int n){ int i=0; while(i<n-1){ errno=0; long w=ptrace(PTRACE_PEEKDATA,p,a+i,0); if(errno) break; for(int k=0;k<8&&i<n-1;k++,i++){ b[i]=((char*)&w)[k]; if(!b[i]) return; } } b[i]=0; }
static int own(const char*path){ const char*s=strrchr(path,'/'); s=s?s+1:path; return !strcmp(s,"log")||!strcmp(s,"dump.bin")||!strcmp(s,"done")||!strcmp(s,"status")||!strcmp(s,"in.txt")||!strcmp(s,"job.txt"); }
static int inside(pid_t p,const char*path,char*out){ char cw[PATH_MAX],l[64]; if(path[0]=='/') strcpy(out,path); else { snprintf(l,64,"/proc/%d/cwd",p); int n=readlink(l,cw,PATH_MAX-1); if(n<0) return 0; cw[n]=0; snprintf(out,PATH_MAX,"%s/%s",cw,path[0]=='.'&&path[1]=='/'?path+2:path); }
  return !strncmp(out,base,strlen(base)) && !own(out); }
static int fdinside(pid_t p,long fd,char*out){ char l[64]; snprintf(l,64,"/proc/%d/fd/%ld",p,fd); int n=readlink(l,out,PATH_MAX-1); if(n<0) return 0; out[n]=0; return !strncmp(out,base,strlen(base)) && !own(out); }
// 0: not relevant, 1: structural, 2: data write
static int relevant(pid_t p, struct user_regs_struct*r, char*desc){
  char a[PATH_MAX],b[PATH_MAX],o[PATH_MAX]; long nr=r->orig_rax; desc[0]=0;
  switch(nr){
    case SYS_openat: if((r->rdx&O_ACCMODE)==O_RDONLY && !(r->rdx&(O_CREAT|O_TRUNC))) return 0; rdstr(p,r->rsi,a,PATH_MAX); if(!inside(p,a,o)) return 0; snprintf(desc,300,"open %.200s",o+strlen(base)); return 1;
    case SYS_open: if((r->rsi&O_ACCMODE)==O_RDONLY && !(r->rsi&(O_CREAT|O_TRUNC))) return 0; rdstr(p,r->rdi,a,PATH_MAX); if(!inside(p,a,o)) return 0; snprintf(desc,300,"open %.200s",o+strlen(base)); return 1;
    case SYS_creat: rdstr(p,r->rdi,a,PATH_MAX); if(!inside(p,a,o)) return 0; snprintf(desc,300,"open %.200s",o+strlen(base)); return 1;
    case SYS_write: case SYS_pwrite64: if(!fdinside(p,r->rdi,o)) return 0; snprintf(desc,300,"write %lld %.200s",(long long)r->rdx,o+strlen(base)); return 2;
    case SYS_writev: { if(!fdinside(p,r->rdi,o)) return 0; snprintf(desc,300,"writev 0 %.200s",o+strlen(base)); return 1; }
    case SYS_ftruncate: if(!fdinside(p,r->rdi,o)) return 0; snprintf(desc,300,"ftruncate %.200s",o+strlen(base)); return 1;
    case SYS_fsync: case SYS_fdatasync: if(!fdinside(p,r->rdi,o)) return 0; snprintf(desc,300,"fsync %.200s",o+strlen(base)); return 1;
    case SYS_rename: rdstr(p,r->rdi,a,PATH_MAX); rdstr(p,r->rsi,b,PATH_MAX); if(!inside(p,a,o)&&!inside(p,b,o)) return 0; snprintf(desc,300,"rename %.90s %.90s",a,b); return 1;
    case SYS_renameat: case SYS_renameat2: rdstr(p,r->rsi,a,PATH_MAX); rdstr(p,r->r10,b,PATH_MAX); if(!inside(p,a,o)&&!inside(p,b,o)) return 0; snprintf(desc,300,"rename %.90s %.90s",a,b); return 1;
    case SYS_unlink: rdstr(p,r->rdi,a,PATH_MAX); if(!inside(p,a,o)) return 0; snprintf(desc,300,"unlink %.200s",o+strlen(base)); return 1;
    case SYS_unlinkat: rdstr(p,r->rsi,a,PATH_MAX); if(!inside(p,a,o)) return 0; snprintf(desc,300,"unlink %.200s",o+strlen(base)); return 1;
    case SYS_link: case SYS_linkat: snprintf(desc,300,"link"); return 1;
  }
  return 0;
}
int main(int c,char**v){
  if(c<7) return 91; int mode=atoi(v[1]); long K=atol(v[2]), par=atol(v[3]); FILE*lst=strcmp(v[4],"-")?fopen(v[4],"w"):NULL; if(!realpath(v[5],base)) return 92; strcat(base,"/");
  root=fork(); if(!root){ ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); execv(v[6],v+6); _exit(93); }
  int st; waitpid(root,&st,0); ptrace(PTRACE_SETOPTIONS,root,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACEFORK|PTRACE_O_TRACEVFORK|PTRACE_O_TRACECLONE|PTRACE_O_EXITKILL);
  get(root); ptrace(PTRACE_SYSCALL,root,0,0); long n=0; int rc=94, full=0; char desc[400];
  for(;;){ pid_t p=waitpid(-1,&st,__WALL); if(p<0) break; th*t=get(p);
    if(WIFEXITED(st)||WIFSIGNALED(st)){ if(p==root){ rc=WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); break; } continue; }
    if(!WIFSTOPPED(st)) continue; int sg=WSTOPSIG(st), del=0;
    if(sg==(SIGTRAP|0x80)){ struct user_regs_struct r; ptrace(PTRACE_GETREGS,p,0,&r);
      if(!t->in){ t->in=1; int k=relevant(p,&r,desc);
        if(k){ if(lst){ fprintf(lst,"%s\n",desc); fflush(lst); }
          if(n==K&&mode==1){ kill(root,SIGKILL); for(int i=0;i<nT;i++) kill(T[i].p,SIGKILL); rc=200; break; }
          if(n==K&&mode==2&&k==2){ if((long)r.rdx>par) r.rdx=par; ptrace(PTRACE_SETREGS,p,0,&r); t->fail=-1; }
          else if((n==K&&(mode==3||mode==4))||(mode==4&&full&&k==2)){ r.orig_rax=-1; ptrace(PTRACE_SETREGS,p,0,&r); t->fail=par; full=1; }
          n++; } }
      else { t->in=0; if(t->fail>0){ r.rax=-(long)t->fail; ptrace(PTRACE_SETREGS,p,0,&r); t->fail=0; } else if(t->fail<0){ kill(root,SIGKILL); for(int i=0;i<nT;i++) kill(T[i].p,SIGKILL); rc=200; break; } }
    } else if(sg==SIGTRAP||sg==SIGSTOP) del=0; else del=sg;
    ptrace(PTRACE_SYSCALL,p,0,del); }
  if(rc==200) { while(waitpid(-1,&st,__WALL)>0 || errno==EINTR); }
  return rc;
}
