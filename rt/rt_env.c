// Engine-only environment data
char *vx_env0[1] = {0};
char **vx_environ = vx_env0;
void *vx_stderr = 0;
void *vx_stdout = 0;
