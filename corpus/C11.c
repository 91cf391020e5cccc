//// struct1
struct S{int a; int b;}; 
int main(int argc,char**argv){ struct S s; s.a=in_int(); s.b=3; printf("%d %d\n",s.a,s.b); struct S *p=&s; p->a=p->a+p->b; printf("%d\n",s.a); return 0; }
//// structmix
struct S{char c; int a; long l; char d; double f;}; 
int main(int argc,char**argv){ struct S s; s.c=in_char(); s.a=in_int(); s.l=in_long(); s.d=in_char(); s.f=1.5; printf("%d %ld %f\n",s.a,s.l,s.f); int x=s.c,y=s.d; printf("%d %d\n",x,y); return 0; }
//// structptrfn
struct S{int a; long b;};
void f(struct S *p){ p->a+=1; p->b=p->b*2; }
int main(int argc,char**argv){ struct S s; s.a=in_int(); s.b=in_long(); f(&s); printf("%d %ld\n",s.a,s.b); return 0; }
//// structnest
struct P{int x; int y;}; struct S{int a; struct P p; int b;};
int main(int argc,char**argv){ struct S s; s.a=1; s.p.x=in_int(); s.p.y=3; s.b=4; printf("%d %d %d %d\n",s.a,s.p.x,s.p.y,s.b); return 0; }
//// structarrmem
struct S{int a; int arr[3]; int b;};
int main(int argc,char**argv){ struct S s; s.a=1; s.arr[0]=2; s.arr[1]=in_int(); s.arr[2]=4; s.b=5; printf("%d %d %d %d %d\n",s.a,s.arr[0],s.arr[1],s.arr[2],s.b); return 0; }
//// structinit
struct S{int a; int b;}; 
int main(int argc,char**argv){ struct S s={1,2}; printf("%d %d\n",s.a,s.b); return 0; }
//// arrstruct
struct S{int a; char c; int b;}; 
int main(int argc,char**argv){ struct S s[3]; int i=in_int(); for(int k=0;k<3;k++){ s[k].a=k; s[k].b=k*2; s[k].c='x'; } if(i>=0&&i<3) printf("%d %d\n",s[i].a,s[i].b); return 0; }
//// union1
union U{int a; unsigned char c[4]; long l;};
int main(int argc,char**argv){ union U u; u.l=in_long(); printf("%d %ld\n",u.a,u.l); return 0; }
//// enum1
enum E{A,B=5,C,D=-1}; 
int main(int argc,char**argv){ int a=in_int(); printf("%d %d %d %d\n",A,B,C,D); if(a==C) printf("c\n"); switch(a){case A: printf("A\n"); break; case B: printf("B\n");break;} return 0; }
//// enumvar
enum E{A,B=5,C}; 
int main(int argc,char**argv){ enum E e=B; int a=in_int(); if(a>0) e=C; printf("%d\n",e); return 0; }
//// sizeof1
long l=in_long(); printf("%d %d %d %d %d %d\n",(int)sizeof(int),(int)sizeof(char),(int)sizeof(long),(int)sizeof(short),(int)sizeof(double),(int)sizeof(float)); printf("%d\n",(int)sizeof(l));
//// sizeofarr
int a[5]; int n=sizeof(a); printf("%d\n",n);
//// sizeofarr2
int a[5]; a[0]=1; int n=sizeof(a)/sizeof(a[0]); printf("%d\n",n);
//// addrstruct
struct S {int a; int b;}; int main(){ struct S s; struct S *p=&s; s.a=in_int(); s.b=in_int(); printf("%d %d\n",p->a,p->b); return 0;}
//// addrmem
struct S{char c; int x; long l;}; 
int main(int argc,char**argv){ struct S s; struct S *q=&s; s.c=in_char(); s.x=in_int(); s.l=in_long(); int *p=&s.x; long *pl=&q->l; *p+=1; *pl+=2; s.c++; printf("%d %d %ld %d\n",s.c,s.x,s.l,*p); return 0; }
//// arrstruct2
struct P{int x; char c; int y;};
int main(int argc,char**argv){ struct P a[3]; int i=in_int(); for(int k=0;k<3;k++){ a[k].x=k; a[k].c=k+65; a[k].y=k*k; } if(i>=0&&i<3){ a[i].y=in_int(); struct P *p=&a[i]; p->x++; printf("%d %d %d\n",a[i].x,a[i].c,a[i].y);} printf("%d %d %d\n",a[0].y,a[1].y,a[2].y); return 0; }
//// structnest2
struct I{int x; int y;}; struct O{char c; struct I i; long l;};
int main(int argc,char**argv){ struct O o; o.c=1; o.i.x=in_int(); o.i.y=7; o.l=in_long(); struct I *p=&o.i; p->y+=o.i.x; struct O *q=&o; q->i.x=3; printf("%d %d %d %ld\n",o.c,o.i.x,q->i.y,o.l); return 0; }
//// structarr2
struct S{char n[4]; int v[2]; };
int main(int argc,char**argv){ struct S s; struct S *q=&s; int i=in_int()&1; s.n[0]='h'; s.n[1]='i'; s.n[2]=0; s.v[0]=5; s.v[1]=6; q->v[i]=in_int(); q->n[i]='x'; printf("%s %d %d %d\n",s.n,s.v[0],s.v[1],(int)sizeof(s.v)); return 0; }
//// structarrinit
struct S{int a; int v[2]; char *s;};
int main(int argc,char**argv){ struct S s={1,{in_int(),3},"abc"}; printf("%d %d %d %s\n",s.a,s.v[0],s.v[1],s.s); return 0; }
//// union2
union U{int i; char c[4]; long l;};
int main(int argc,char**argv){ union U u; union U *p=&u; u.i=in_int(); printf("%d %d\n",u.c[0],u.c[3]); p->l=in_long(); printf("%d %ld\n",u.i,u.l); u.c[1]=7; printf("%d\n",p->i); return 0; }
//// sizeof_unevaluated
int x=in_int(); int y=x; int n=sizeof(x++); n=n+sizeof(x=5)+sizeof(--y)+sizeof(in_int()); int a[3][2]; printf("%d %d %d %d\n",n,x,y,(int)sizeof(a[in_int()])); printf("%d\n",in_int());
//// sizeof_literals
char c=in_char(); printf("%d %d %d %d %d %d %d\n",(int)sizeof("abcd"),(int)sizeof(""),(int)sizeof(5),(int)sizeof(1.5),(int)sizeof(c+1),(int)sizeof(c),(int)sizeof(5000000000));
