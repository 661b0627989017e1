/*
 * Fork server for running many Minim programs against the code in /repo.
 *
 * vmini [-l] [-p PRELOAD] [-j JOBS] TASKS
 *   Loads the prelude (and, with -l, the boot library, and with -p imports the module PRELOAD)
 *   exactly as the `minim` program does, then, for every line "ID SECONDS PATH [ARG...]" of TASKS,
 *   forks a child that runs the program PATH the way `minim` would, with stdout and stderr going
 *   to PATH.out and PATH.err and stdin coming from PATH.in if that exists.
 *   Prints "ID exit N RSS" or "ID signal N RSS".  JOBS such loops run in parallel.
 */
#include "../build/config.h"
#include "../boot.h"
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

static int lib = 0;

static void redirect(const char *path, const char *ext, const char *mode, FILE *f) {
    char buf[4200];
    snprintf(buf, sizeof buf, "%s%s", path, ext);
    if (mode[0] == 'r' && access(buf, R_OK) != 0)
        strcpy(buf, "/dev/null");
    if (freopen(buf, mode, f) == NULL)
        _exit(99);
}

static void run(char *path, char **args, int nargs, int secs) {
    mobj tc = current_tc();
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 64UL << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
    alarm(secs);
    redirect(path, ".in", "r", stdin);
    redirect(path, ".out", "w", stdout);
    redirect(path, ".err", "w", stderr);
    for (int i = nargs - 1; i >= 0; --i)
        tc_command_line(tc) = Mcons(Mstring(args[i]), tc_command_line(tc));
    tc_command_line(tc) = Mcons(Mstring(path), tc_command_line(tc));
    eval_expr(tc, Mcons(intern(lib ? "import" : "load"), Mcons(Mstring(path), minim_null)));
    minim_shutdown(0);
}

static void serve(const char *tasks_path, int k, int jobs, int fd, long budget) {
    char line[8192], out[64];
    time_t begin = time(NULL);
    FILE *tasks = fopen(tasks_path, "r");
    long count = 0;
    if (tasks == NULL) _exit(98);
    while (fgets(line, sizeof line, tasks)) {
        char *id, *secs, *path, *args[64];
        int n = 0, st, len;
        pid_t pid;
        if (count++ % jobs != k) continue;
        id = strtok(line, " \n"), secs = strtok(NULL, " \n"), path = strtok(NULL, " \n");
        if (path == NULL) continue;
        if (budget && count > jobs && time(NULL) - begin > budget) continue;   /* programs hang: the rest is not run */
        while (n < 64 && (args[n] = strtok(NULL, " \n")) != NULL) n++;
        pid = fork();
        if (pid == 0) {
            close(fd);
            fclose(tasks);
            run(path, args, n, atoi(secs));
            _exit(97);
        }
        struct rusage ru;
        if (pid < 0 || wait4(pid, &st, 0, &ru) < 0) _exit(96);
        len = WIFEXITED(st) ? sprintf(out, "%s exit %d %ld\n", id, WEXITSTATUS(st), ru.ru_maxrss)
                            : sprintf(out, "%s signal %d %ld\n", id, WTERMSIG(st), ru.ru_maxrss);
        if (write(fd, out, len) != len) _exit(95);
    }
    _exit(0);
}

int main(int argc, char **argv) {
    volatile int stack_top = 0;
    char *old_cwd, *preload = NULL;
    int i, jobs = 1, fd;
    long budget = 0;

    setenv("GC_MARKERS", "1", 1);
    for (i = 1; i < argc - 1; i++) {
        if (strcmp(argv[i], "-l") == 0) lib = 1;
        else if (strcmp(argv[i], "-p") == 0) preload = argv[++i];
        else if (strcmp(argv[i], "-j") == 0) jobs = atoi(argv[++i]);
        else if (strcmp(argv[i], "-b") == 0) budget = atol(argv[++i]);
    }
    GC_init(((void*) &stack_top));
    minim_boot_init();
    load_prelude(current_tc());
    if (lib) {
        old_cwd = get_current_dir();
        set_current_dir(BOOT_DIR);
        load_file(current_tc(), "boot.min");
        set_current_dir(old_cwd);
    }
    if (preload)
        eval_expr(current_tc(), Mcons(intern("import"), Mcons(Mstring(preload), minim_null)));

    fflush(stdout);
    fd = dup(1);
    for (i = 0; i < jobs; i++)
        if (fork() == 0)
            serve(argv[argc - 1], i, jobs, fd, budget);
    while (wait(NULL) > 0)
        ;
    _exit(0);
}
