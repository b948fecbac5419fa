//@ source src/message.c
//@ function buffer_create buffer_reset buffer_push buffer_extract buffer_size
//@ assume malloc and realloc succeed; buffers stay below 2 GiB - 8 KiB
//@ fallback --unwind 4
//@@prelude
//@@harness
int main(void) {
  int op = nondet_int(), n = nondet_int(), w = nondet_int();
  if (op == 0) {
    ASSUME(n >= 1);
    string_buffer *B = buffer_create(n);
    ENSURE(B->position == 0 && B->size >= 1 && __CPROVER_w_ok(B->buffer, B->size), "an empty buffer");
    REACH("create");
    return 0;
  }
  string_buffer *B = malloc(sizeof *B);
  B->size = nondet_int(); B->position = nondet_int();
  ASSUME(B->size >= 1 && B->position >= 0 && B->position <= B->size && B->position < 2147483647 - 8192);
  B->buffer = malloc(B->size);
  int p = B->position, sz = B->size;
  ASSUME(w >= 0 && (w < p || p == 0));
  char v = p ? B->buffer[w] : 0, c = nondet_char();
  if (op == 1) {
    buffer_push(B, c);
    ENSURE(B->position == p + 1 && B->size >= B->position && B->size <= 2147483647, "one character longer");
    ENSURE(__CPROVER_w_ok(B->buffer, B->size), "the buffer is as large as it says");
    ENSURE(B->buffer[p] == c, "the character is stored behind the others");
    if (p) ENSURE(B->buffer[w] == v, "the others are kept");
    if (p == sz) REACH("push with growth");
  } else if (op == 2) {
    buffer_reset(B);
    ENSURE(B->position == 0 && B->size == sz && buffer_size(B) == 0, "empty");
    REACH("reset");
  } else {
    char *s = buffer_extract(B);
    ENSURE(__CPROVER_r_ok(s, (size_t) p + 1) && !__CPROVER_same_object(s, B->buffer), "a copy");
    ENSURE(s[p] == 0, "terminated");
    if (p) ENSURE(s[w] == v, "same content");
    ENSURE(B->position == p && buffer_size(B) == p && (p == 0 || B->buffer[w] == v), "the buffer is kept");
    if (p > 5000) REACH("extract");
  }
}
