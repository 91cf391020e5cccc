//// const_int_big
int a=in_int(); printf("%d %d\n",a<100000,a>70000);
//// const_int_small
int a=in_int(); printf("%d %d %d\n",a<100,a>-5, a==0);
//// const_long_big
long a=in_long(); printf("%d %d\n",a<10000000000,a>70000);
//// const_long_2
long a=in_long(); printf("%d %ld\n",a<2147483648, a+4294967296);
//// hexconst
unsigned int a=in_uint(); printf("%u %d\n",a^0xFFFFFFFF, a > 0x80000000);
//// constneg
int a=in_int(); printf("%d %d\n",a< -100000, a*-3);
//// stresc
char *s="a\n\t\\\"\x41\101\0z"; printf("%d %d %d %d %d %d %d %d %d\n",s[0]+0,s[1]+0,s[2]+0,s[3]+0,s[4]+0,s[5]+0,s[6]+0,s[7]+0,s[8]+0);
//// strdup
char *s="ab"; char *t="ab"; char *u="b"; printf("%s %s %s\n",s,t,u);
//// charconst
int a='a'; int b='\n'; int c='\0'; int d='\\'; int e='\''; printf("%d %d %d %d %d\n",a,b,c,d,e);
//// chhex
char c=in_char(); printf("%d %d %d\n", c=='\xff', '\x80', c<'\377');
//// stresc2
char *s="\a\b\f\v\t\n\r\\\"\'\?q\\n"; for(int i=0;s[i];i++) printf("%d ",s[i]);
//// chesc
printf("%d %d %d %d %d %d %d %d %d\n",'\a','\b','\f','\v','\\','\'','"','\?','\0');
//// printfesc
printf("tab\there 100%% \x41\n");
//// dec_over_int_max own=1
int a = in_int(); printf("%d\n", a < 2147483648); return 0;
//// neg_unsigned_const own=1
printf("%d\n", -0x80000000 < 0);
