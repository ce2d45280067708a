/* in-memory files under /mem/, private to the process (so they fork with the path) */
#define MEMFS_MAX 64
struct memfile { char path[256]; char *buf; size_t len, cap; };
static struct memfile memfs[MEMFS_MAX]; static int memfs_n;
struct memcookie { struct memfile *f; size_t pos; int app; };
static struct memfile *memfs_find(const char *p){ for(int i=0;i<memfs_n;i++) if(!strcmp(memfs[i].path,p)) return memfs+i; return 0; }
static struct memfile *memfs_make(const char *p){ struct memfile*f=memfs_find(p); if(f) return f;
  if(memfs_n==MEMFS_MAX) _exit(97); f=memfs+memfs_n++; strncpy(f->path,p,255); f->buf=0; f->len=f->cap=0; return f; }
static ssize_t mc_read(void *c,char *b,size_t n){ struct memcookie*m=(struct memcookie*)c; size_t r=m->f->len-m->pos; if(m->pos>m->f->len) r=0; if(r>n) r=n; memcpy(b,m->f->buf+m->pos,r); m->pos+=r; return r; }
static ssize_t mc_write(void *c,const char *b,size_t n){ struct memcookie*m=(struct memcookie*)c; struct memfile*f=m->f; if(m->app) m->pos=f->len;
  if(m->pos+n+1>f->cap){ f->cap=(m->pos+n+1)*2; f->buf=(char*)realloc(f->buf,f->cap);} memcpy(f->buf+m->pos,b,n); m->pos+=n; if(m->pos>f->len) f->len=m->pos; f->buf[f->len]=0; return n; }
static int mc_seek(void *c,off64_t *o,int w){ struct memcookie*m=(struct memcookie*)c; off64_t p=*o; if(w==SEEK_CUR) p+=m->pos; else if(w==SEEK_END) p+=m->f->len; if(p<0) return -1; m->pos=p; *o=p; return 0; }
static int mc_close(void *c){ free(c); return 0; }
static FILE *memfs_open(const char *p,const char *mode){
  struct memfile*f=memfs_find(p);
  if(mode[0]=='r'){ if(!f) return 0; } else { f=memfs_make(p); if(mode[0]=='w') { f->len=0; if(f->buf) f->buf[0]=0; } }
  struct memcookie*m=(struct memcookie*)calloc(1,sizeof *m); m->f=f; m->pos=0; m->app=(mode[0]=='a');
  cookie_io_functions_t io={mc_read,mc_write,mc_seek,mc_close};
  return fopencookie(m,mode,io); }
static int memfs_remove(const char*p){ struct memfile*f=memfs_find(p); if(!f) return -1; f->path[0]=0; return 0; } /* open handles keep working */
void sym_file_put(const char *p,const char *t){ struct memfile*f=memfs_make(p); size_t n=strlen(t); f->buf=(char*)realloc(f->buf,n+1); f->cap=n+1; f->len=n; memcpy(f->buf,t,n+1); }
const char *sym_file_get(const char *p){ struct memfile*f=memfs_find(p); if(!f) return 0; if(!f->buf) return ""; return f->buf; }
