//// switch1
int a=in_int(); switch(a){ case 1: printf("one\n"); break; case 2: printf("two\n"); case 3: printf("three\n"); break; default: printf("d\n"); } printf("end\n");
//// switchnodef
int a=in_int(); int r=0; switch(a){ case 1: r=1; break; case 5: r=5; break; } printf("%d\n",r);
//// switchdeffirst
int a=in_int(); int r=0; switch(a){ default: r=9; case 1: r+=1; break; case 5: r=5; } printf("%d\n",r);
//// switchdefmid
int a=in_int(); int r=0; switch(a){ case 1: r+=1; break; default: r=9; case 5: r+=5; } printf("%d\n",r);
//// switchneg
int a=in_int(); int r=0; switch(a){ case -1: r=1; break; case 0: r=2; break; case 2147483647: r=3; break; default: r=4;} printf("%d\n",r);
//// switchchar
char a=in_char(); int r=0; switch(a){ case 'a': r=1; break; case 'b': r=2; break; case '\n': r=3; break; default: r=4;} printf("%d\n",r);
//// switchlong
long a=in_long(); int r=0; switch(a){ case 1: r=1; break; case 5000000000: r=2; break; default: r=4;} printf("%d\n",r);
//// switchuint
unsigned int a=in_uint(); int r=0; switch(a){ case 1: r=1; break; case 4000000000: r=2; break; default: r=4;} printf("%d\n",r);
//// switchempty
int a=in_int(); switch(a){ case 1: case 2: case 3: printf("123\n"); break; case 4: printf("4\n"); } printf("e\n");
//// switchloop
int a=in_int(); int s=0; for(int i=0;i<4;i++){ switch(i){ case 0: s+=1; break; case 1: if(a==3) continue; s+=10; break; default: s+=100; } s+=1000; } printf("%d\n",s);
//// switchret
int f(int a){ switch(a){ case 1: return 10; case 2: return 20; default: return 30; } }
int main(int argc,char**argv){ printf("%d\n", f(in_int())); return 0; }
//// switchnested
int a=in_int(); int b=in_int(); int r=0; switch(a){ case 1: switch(b){ case 1: r=11; break; case 2: r=12; break; } break; case 2: r=2; } printf("%d\n",r);
//// switchloopinside
int a=in_int(); int r=0; switch(a){ case 1: for(int i=0;i<3;i++){ r+=i; } break; case 2: r=2; while(r<5) r++; break; default: r=7; } printf("%d\n",r);
//// switchexpr
int a=in_int(); int r=0; switch(a+1){ case 1+1: r=1; break; case 3*2: r=6; break; } printf("%d\n",r);
//// swif
int a=in_int(); int b=in_int(); int r=0; switch(a){ case 1: if(b>3) r=1; else r=2; break; case 2: { int q=b; if(q) { r=q; break; } r=99; } case 3: r+=7; } printf("%d\n",r);
//// swnest2
int a=in_int(); int b=in_int(); int r=0; switch(a){ case 1: switch(b){ case 1: r=11; if(a) break; default: r=12; break; } r+=100; break; case 2: r=2; } printf("%d\n",r);
//// swduff
int a=in_int(); int n=2; int r=0; if(a>=0&&a<3){ switch(a){ case 0: do { r+=1; case 1: r+=10; case 2: r+=100; } while(--n>0); } printf("%d\n",r);}
//// swcaseinif
int a=in_int(); int b=in_int(); int r=0; switch(a){ case 0: if(b>2) { r=1; case 1: r+=2; } else { case 2: r+=4; } r+=8; } printf("%d\n",r);
//// swpre
int a=in_int(); int r=0; switch(a){ int q; case 0: q=3; r=q; break; case 1: q=4; r=q+1; } printf("%d\n",r);
//// swcontwhile
int a=in_int(); int s=0; int i=0; while(i<4){ i++; switch(i){ case 2: if(a>2) continue; break; case 3: if(a<0) { s+=50; break; } s+=5; default: s+=100; } s+=1000; } printf("%d\n",s);
//// swnobrk
int a=in_int(); int s=0; switch(a) { case 1: s=1; case 2: s+=2; default: s+=3; case 7: s+=4;} printf("%d\n",s);
//// swonestmt
int a=in_int(); int s=0; switch(a) case 3: s=9; printf("%d\n",s);
//// swnone
int a=in_int(); int s=0; switch(a) { s=5; } printf("%d\n",s);
//// swdefonly
int a=in_int(); int s=0; switch(a) { default: s=5; } printf("%d\n",s);
//// swretinloop
int f(int a){ for(int i=0;i<3;i++){ switch(a+i){ case 5: return i; case 6: continue; case 7: break; default: a++; } a+=2; } return -a; }
int main(int argc,char**argv){ int a=in_int(); if(a<100&&a>-100) printf("%d\n",f(a)); return 0;}
//// swwhileforever
int a=in_int(); int s=0; while(1){ switch(a){ case 1: s++; a=2; continue; case 2: s+=10; a=3; break; default: printf("%d\n",s); return 0; } s+=100; }
//// swlongneg
long a=in_long(); int r=0; switch(a){ case -1: r=1; break; case 1+2: r=3; break; case 'a': r=4; break; default: r=5;} printf("%d\n",r);
//// swchar300
char a=in_char(); int r=0; switch(a){ case 300: r=1; break; case 44: r=3; break; case -3: r=4; break; default: r=5;} printf("%d\n",r);
//// swuchar
unsigned char a=in_uchar(); int r=0; switch(a){ case 300: r=1; break; case 200: r=3; break; case -3: r=4; break; default: r=5;} printf("%d\n",r);
