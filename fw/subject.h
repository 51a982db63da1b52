/* ABI between a generated subject library (cglm compiled in one configuration) and the runner */
#ifndef VF_SUBJECT_H
#define VF_SUBJECT_H
typedef void (*vf_wrap)(void **A, void *R);
typedef struct vf_arg { char kind; /* f i: arrays, F I: scalars */ char role; /* i, o, b(oth) */
                        short len; int align; const char *name, *type; } vf_arg;
typedef struct vf_fn { const char *name; char ret; /* v F B I */ int nargs; const vf_arg *args;
                       vf_wrap inl, call, str; } vf_fn;
#endif
