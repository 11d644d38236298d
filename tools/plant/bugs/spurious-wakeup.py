prop='H26'
needs='a wakeup of the condition without a task (a spurious one)'
breaks='a thread of the pool takes a task from an empty queue'
edits=[('src/viriatum_commons/thread/thread_pool.c',
  '        while(thread_pool->task_queue->size == 0) {',
  '        if(thread_pool->task_queue->size == 0) {')]
demo=r'''
import common

C = r"""
#include "stdafx.h"
#include "thread/thread_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>


static volatile int count = 0, waits = 0;

int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    /* every third wait ends by itself, as POSIX allows */
    if(__sync_add_and_fetch(&waits, 1) % 3 == 0) {
        pthread_mutex_unlock(m);
        usleep(2000);
        pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_wait(c, m);
}

static THREAD_RETURN run(THREAD_ARGUMENTS a) { __sync_add_and_fetch(&count, 1); return 0; }

int main(void) {
    struct thread_pool_t *pool;
    struct thread_pool_task_t task;
    int i;
    memset(&task, 0, sizeof(task));
    task.start_function = run;
    create_thread_pool(&pool, 3, 1, 3);
    for(i = 0; i < 40; i++) { insert_task_thread_pool(pool, &task); usleep(1000); }
    for(i = 0; i < 500 && count < 40; i++) { usleep(10000); }
    usleep(100000);
    return count == 40 ? 0 : 1;
}

"""


def program(b, *flags):
    os.makedirs(b.path("cfg"), exist_ok=True)
    with open(b.path("cfg/config.h"), "w") as f:
        f.write('#include "%s/_build/src/config.h"\n' % REPO)
    with open(b.path("pool.c"), "w") as f:
        f.write(C)
    base = REPO + "/src/viriatum_commons"
    srcs = [base + "/" + s for s in common._sources(base + "/Makefile.am", "libviriatum_a_SOURCES")]
    subprocess.run(["gcc", "-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + b.path("cfg"), "-I" + base, b.path("pool.c"),
                    "-o", b.path("pool")] + srcs + list(flags) + ["-lpthread", "-ldl", "-lm"], check=True)
    try:
        return subprocess.run([b.path("pool")], cwd=b.dir, stdout=subprocess.DEVNULL, timeout=100).returncode
    except subprocess.TimeoutExpired:
        return "no end"


with Box() as b:
    check(program(b, "-Wl,--wrap=pthread_cond_wait") == 0, "every task runs once although waits end by themselves")
'''
