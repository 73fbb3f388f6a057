/* A small robot host for demonstrations: N robots run the same script, messages sent in step t arrive in step t+1.
   usage: host script.bo N T [event...]
   events: drop:T:FROM:TO  dup:T:FROM:TO:LATER  delay:T:FROM:TO:LATER  cut:T1:T2:A:B  inject:T:TO:FROM:HEX  bw:N  restart:T:R  moving (the distance is 10 * id + step) */
#include <buzz/buzzvm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { int due, from, to, n; unsigned char** d; int* l; int sent; } pkt;
static pkt air[100000]; static int nair=0;
static int step_no=0;
static void show(buzzvm_t vm, buzzobj_t o) {
   switch(o->o.type) {
      case BUZZTYPE_NIL: printf("nil"); break;
      case BUZZTYPE_INT: printf("%d", o->i.value); break;
      case BUZZTYPE_FLOAT: printf("%g", o->f.value); break;
      case BUZZTYPE_STRING: printf("%s", o->s.value.str); break;
      case BUZZTYPE_TABLE: printf("{%d}", (int)buzzdict_size(o->t.value)); break;
      default: printf("?");
   }
}
static int logf_(buzzvm_t vm) {
   printf("%d R%d", step_no, vm->robot);
   for(int i = 1; i <= buzzvm_lnum(vm); ++i) { buzzvm_lload(vm, i); printf(" "); show(vm, buzzvm_stack_at(vm, 1)); buzzvm_pop(vm); }
   printf("\n");
   return buzzvm_ret0(vm);
}
static unsigned char* code; static long size;
static buzzvm_t boot(int id) {
   buzzvm_t vm = buzzvm_new(id);
   buzzvm_set_bcode(vm, code, size);
   buzzvm_pushs(vm, buzzvm_string_register(vm, "log", 1));
   buzzvm_pushcc(vm, buzzvm_function_register(vm, logf_));
   buzzvm_gstore(vm);
   if(buzzvm_execute_script(vm) == BUZZVM_STATE_DONE && buzzvm_function_call(vm, "init", 0) == BUZZVM_STATE_READY) buzzvm_pop(vm);
   return vm;
}
int main(int argc, char** argv) {
   setvbuf(stdout, NULL, _IOLBF, 0);
   FILE* f = fopen(argv[1], "rb"); fseek(f, 0, SEEK_END); size = ftell(f); rewind(f);
   code = malloc(size); if(fread(code, 1, size, f) != size) return 9; fclose(f);
   int N = atoi(argv[2]), T = atoi(argv[3]); buzzvm_t vm[64]; int bw = 1000000, moving = 0;
   for(int a = 4; a < argc; ++a) { sscanf(argv[a], "bw:%d", &bw); if(!strcmp(argv[a], "moving")) moving = 1; }
   for(int i = 0; i < N; ++i) vm[i] = boot(i + 1);
   for(step_no = 0; step_no < T; ++step_no) for(int i = 0; i < N; ++i) {
      buzzvm_t v = vm[i]; int t = step_no, x, y, z, w;
      for(int a = 4; a < argc; ++a) if(sscanf(argv[a], "restart:%d:%d", &x, &y) == 2 && x == t && y == i + 1) { buzzvm_destroy(&v); v = vm[i] = boot(i + 1); }
      if(v->state == BUZZVM_STATE_ERROR) continue;
      buzzneighbors_reset(v);
      for(int k = 0; k < nair; ++k) if(air[k].to == i && air[k].due <= t) {
         buzzneighbors_add(v, air[k].from + 1, 10 * (air[k].from + 1) + (moving ? air[k].sent : 0), 0, 0);
         for(int m = 0; m < air[k].n; ++m) buzzinmsg_queue_append(v, air[k].from + 1, buzzmsg_payload_frombuffer(air[k].d[m], air[k].l[m]));
         air[k].to = -1;
      }
      for(int a = 4; a < argc; ++a) { char hex[4096]; if(sscanf(argv[a], "inject:%d:%d:%d:%4000s", &x, &y, &z, hex) == 4 && x == t && y == i + 1) {
         unsigned char b[2048]; int n = strlen(hex) / 2; for(int q = 0; q < n; ++q) { unsigned u; sscanf(hex + 2 * q, "%2x", &u); b[q] = u; }
         buzzinmsg_queue_append(v, z, buzzmsg_payload_frombuffer(b, n)); } }
      buzzvm_process_inmsgs(v);
      if(v->state == BUZZVM_STATE_READY && buzzvm_function_call(v, "step", 0) == BUZZVM_STATE_READY) buzzvm_pop(v);
      if(v->state != BUZZVM_STATE_READY) { printf("%d R%d ERROR %s\n", t, i + 1, v->errormsg ? v->errormsg : "(no message)"); continue; }
      buzzvm_process_outmsgs(v);
      pkt p = { t + 1, i, 0, 0, malloc(sizeof(void*) * 4096), malloc(sizeof(int) * 4096), t };
      while(!buzzoutmsg_queue_isempty(v) && p.n < 4096 && p.n < bw) {
         buzzmsg_payload_t m = buzzoutmsg_queue_first(v);
         p.l[p.n] = buzzmsg_payload_size(m); p.d[p.n] = malloc(p.l[p.n] + 1); memcpy(p.d[p.n], m->data, p.l[p.n]); ++p.n;
         buzzoutmsg_queue_next(v); buzzmsg_payload_destroy(&m);
      }
      for(int j = 0; j < N; ++j) if(j != i) {
         int dead = 0; pkt q = p; q.to = j;
         for(int a = 4; a < argc; ++a) {
            if(sscanf(argv[a], "drop:%d:%d:%d", &x, &y, &z) == 3 && x == t && y == i + 1 && z == j + 1) dead = 1;
            if(sscanf(argv[a], "delay:%d:%d:%d:%d", &x, &y, &z, &w) == 4 && x == t && y == i + 1 && z == j + 1) q.due = t + w;
            if(sscanf(argv[a], "dup:%d:%d:%d:%d", &x, &y, &z, &w) == 4 && x == t && y == i + 1 && z == j + 1) { pkt d = q; d.due = t + w; air[nair++] = d; }
            if(sscanf(argv[a], "cut:%d:%d:%d:%d", &x, &y, &z, &w) == 4 && t >= x && t < y && ((z == i + 1 && w == j + 1) || (w == i + 1 && z == j + 1))) dead = 1;
         }
         if(!dead) air[nair++] = q;
      }
   }
   for(int i = 0; i < N; ++i) buzzvm_destroy(&vm[i]);
   return 0;
}
