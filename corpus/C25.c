//// bubblesort
void sort(int *a, int n){ for(int i=0;i<n-1;i++) for(int j=0;j<n-1-i;j++) if(a[j]>a[j+1]){ int t=a[j]; a[j]=a[j+1]; a[j+1]=t; } }
int main(int argc,char**argv){ int a[3]; a[0]=in_int(); a[1]=in_int(); a[2]=in_int(); sort(a,3); printf("%d %d %d\n",a[0],a[1],a[2]); return a[0]<=a[1]; }
//// inssort4
int main(int argc,char**argv){ long a[4]; for(int i=0;i<4;i++) a[i]=in_long(); for(int i=1;i<4;i++){ long x=a[i]; int j=i-1; while(j>=0 && a[j]>x){ a[j+1]=a[j]; j--; } a[j+1]=x; } for(int i=0;i<4;i++) printf("%ld\n",a[i]); return 0; }
//// gcd
int gcd(int a,int b){ if(b==0) return a; return gcd(b,a%b); }
int main(int argc,char**argv){ int a=in_uchar()&15,b=in_uchar()&7; printf("%d\n",gcd(a,b)); return 0; }
//// sieve
int main(int argc,char**argv){ char s[20]; int n=in_int(); for(int i=0;i<20;i++) s[i]=1; for(int i=2;i<20;i++) if(s[i]) for(int j=i*2;j<20;j+=i) s[j]=0; if(n>=2&&n<20) printf("%d\n",s[n]); return 0; }
//// strrev
int len(char *s){ int n=0; while(s[n]) n++; return n; }
void rev(char *s){ int i=0,j=len(s)-1; while(i<j){ char t=s[i]; s[i]=s[j]; s[j]=t; i++; j--; } }
int main(int argc,char**argv){ char s[]="abcdef"; int k=in_int()&3; s[k]=in_char()|64; rev(s); printf("%s\n",s); return 0; }
//// argecho args=prog,2,3
int main(int argc,char**argv){ for(int i=1;i<argc;i++){ char *p=argv[i]; int n=0; while(*p){ n+=*p; p++; } printf("%d %s\n",n,argv[i]); } return argc; }
//// matmul
int main(int argc,char**argv){ int a[2][2]; int b[2][2]={{1,2},{3,4}}; int c[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) a[i][j]=in_int()&65535; for(int i=0;i<2;i++) for(int j=0;j<2;j++){ c[i][j]=0; for(int k=0;k<2;k++) c[i][j]+=a[i][k]*b[k][j]; } printf("%d %d %d %d\n",c[0][0],c[0][1],c[1][0],c[1][1]); return 0; }
//// fibmemo
long memo[10]; long fib(int n){ if(n<2) return n; if(memo[n]) return memo[n]; long r=fib(n-1)+fib(n-2); memo[n]=r; return r; }
int main(int argc,char**argv){ int n=in_int(); if(n>=0&&n<10) printf("%ld\n",fib(n)); return 0; }
//// binsearch
int find(int *a,int n,int x){ int lo=0,hi=n-1; while(lo<=hi){ int mid=(lo+hi)/2; if(a[mid]==x) return mid; if(a[mid]<x) lo=mid+1; else hi=mid-1; } return -1; }
int main(int argc,char**argv){ int a[7]={1,3,5,8,13,21,34}; printf("%d\n",find(a,7,in_int())); return 0; }
//// stackmachine
int stack[8]; int sp=0; void push(int x){ stack[sp]=x; sp++; } int pop(){ sp--; return stack[sp]; }
int main(int argc,char**argv){ push(in_int()); push(in_int()); for(int i=0;i<2;i++){ int op=in_int(); switch(op&3){ case 0: { int b=pop(); int a=pop(); push(a^b); push(a); break; } case 1: push(pop()|1); break; case 2: { int a=pop(); push(a); push(a&7); break; } default: goto done; } } done: printf("%d %d\n",pop(),sp); return 0; }
//// collatz
int steps(unsigned int n){ int k=0; while(n!=1 && k<12){ if(n%2==0) n=n/2; else n=3*n+1; k++; } return k; }
int main(int argc,char**argv){ unsigned int n=in_uchar()&7; if(n>0) printf("%d\n",steps(n)); return 0; }
//// caesar args=prog,3
int main(int argc,char**argv){ char *s=argv[1]; int k=in_uchar()%26; for(int i=0;s[i];i++){ if(s[i]>='a'&&s[i]<='z') s[i]=(s[i]-'a'+k)%26+'a'; } printf("%s\n",s); return 0; }
//// hanoi
int moves=0; void move(int n,int a,int b,int c){ if(n==0) return; move(n-1,a,c,b); moves++; printf("%d%d ",a,b); move(n-1,c,b,a); }
int main(int argc,char**argv){ int n=in_int(); if(n>=0&&n<4) move(n,1,2,3); printf("%d\n",moves); return moves; }
//// popcount
int pc(unsigned int x){ int n=0; for(int i=0;i<32;i++){ if(x&1) n++; x>>=1; } return n; }
int main(int argc,char**argv){ unsigned int x=in_uint(); unsigned int y=x&0x15; printf("%d\n",pc(y)); return 0; }
//// bitrev
int main(int argc,char**argv){ unsigned int x=in_uint(),r=0; for(int i=0;i<32;i++){ r=(r<<1)|(x&1); x>>=1; } printf("%u\n",r); return 0; }
//// swapbytes
int main(int argc,char**argv){ long l=in_long(); unsigned char *p=(unsigned char*)&l; for(int i=0;i<4;i++){ unsigned char t=p[i]; p[i]=p[7-i]; p[7-i]=t; } printf("%ld\n",l); return 0; }
//// fnv
unsigned int h(char *s){ unsigned int x=2166136261; for(int i=0;s[i];i++){ x^=s[i]; x*=16777619; } return x; }
int main(int argc,char**argv){ char b[4]; b[0]=in_char()|1; b[1]=in_char()|1; b[2]=0; printf("%u\n",h(b)); return 0; }
//// lcg
unsigned long state; unsigned int rnd(){ state=state*6364136223846793005+1442695040888963407; return state>>33; }
int main(int argc,char**argv){ state=in_ulong(); unsigned int a=rnd(); unsigned int b=rnd(); printf("%u %u\n",a,b); return 0; }
//// listsum
struct N { int v; int next; }; struct N pool[5]; int head=-1; int used=0;
void add(int v){ pool[used].v=v; pool[used].next=head; head=used; used++; }
int main(int argc,char**argv){ add(in_int()&255); add(in_int()&255); add(3); int s=0; for(int i=head;i!=-1;i=pool[i].next) s=s*2+pool[i].v; printf("%d\n",s); return 0; }
//// wordcount args=prog,4
int main(int argc,char**argv){ char *s=argv[1]; int in=0,n=0; for(int i=0;s[i]!='\0';i++){ if(s[i]==' '||s[i]=='\t') in=0; else if(!in){ in=1; n++; } } printf("%d\n",n); return n; }
//// palindrome args=prog,4
int pal(char *s,int i,int j){ if(i>=j) return 1; if(s[i]!=s[j]) return 0; return pal(s,i+1,j-1); }
int main(int argc,char**argv){ int n=0; while(argv[1][n]) n++; printf("%d\n",pal(argv[1],0,n-1)); return 0; }
//// atoi args=prog,3
int main(int argc,char**argv){ char *s=argv[1]; int r=0,neg=0; if(*s=='-'){ neg=1; s++; } while(*s>='0'&&*s<='9'){ r=r*10+(*s-'0'); s++; } printf("%d\n",neg?-r:r); return 0; }
//// power
long power(long b,int e){ long r=1; while(e>0){ if(e&1) r*=b; b*=b; e>>=1; } return r; }
int main(int argc,char**argv){ int e=in_int()&3; printf("%ld\n",power(in_char()%10,e)); return 0; }
//// life
int main(int argc,char**argv){ char g[3][3]; char n[3][3]; int bits=in_int(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) g[i][j]=(i==1)|((i*3+j)==(bits&3)); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ int c=0; for(int di=-1;di<=1;di++) for(int dj=-1;dj<=1;dj++){ if(di==0&&dj==0) continue; int y=i+di,x=j+dj; if(y<0||y>2||x<0||x>2) continue; c+=g[y][x]; } n[i][j]=c==3||(g[i][j]&&c==2); } for(int i=0;i<3;i++) printf("%d%d%d\n",n[i][0],n[i][1],n[i][2]); return 0; }
//// ackermann
int ack(int m,int n){ if(m==0) return n+1; if(n==0) return ack(m-1,1); return ack(m-1,ack(m,n-1)); }
int main(int argc,char**argv){ int m=in_uchar()&1,n=in_uchar()&3; printf("%d\n",ack(m,n)); return 0; }
//// statemachine
enum St{IDLE,RUN=3,DONE}; 
int main(int argc,char**argv){ int s=IDLE; for(int i=0;i<4;i++){ int e=in_int()&1; switch(s){ case IDLE: if(e) s=RUN; break; case RUN: if(!e) { s=DONE; break; } s=RUN; printf("r"); break; case DONE: goto out; } } out: printf("%d\n",s); return s; }
//// queens4
int col[4]; int count=0; int ok(int r,int c){ for(int i=0;i<r;i++){ int d=col[i]-c; if(d<0) d=-d; if(d==0||d==r-i) return 0; } return 1; }
void place(int r){ if(r==4){ count++; return; } for(int c=0;c<4;c++) if(ok(r,c)){ col[r]=c; place(r+1); } }
int main(int argc,char**argv){ place(in_int()&3); printf("%d\n",count); return 0; }
//// points
struct P{int x; int y;}; void mv(struct P *p,int dx,int dy){ p->x+=dx; p->y+=dy; } int dot(struct P *a,struct P *b){ return a->x*b->x+a->y*b->y; }
int main(int argc,char**argv){ struct P a; struct P b; a.x=in_char(); a.y=2; b.x=3; b.y=in_char(); mv(&a,1,-1); mv(&b,b.x,a.y); printf("%d %d %d %d\n",a.x,a.y,b.x,dot(&a,&b)); return 0; }
//// doubleavg
double avg(double *a,int n){ double s=0; for(int i=0;i<n;i++) s=s+a[i]; return s/n; }
int main(int argc,char**argv){ double a[2]; a[0]=in_int(); a[1]=in_int(); double m=avg(a,2); printf("%f %d\n",m,m>0.5); return 0; }
