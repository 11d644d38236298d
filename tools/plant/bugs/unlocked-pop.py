prop='H26'
needs='two threads of the pool that take their tasks at the same time'
breaks='two threads take the same task, or the queue is damaged'
edits=[('src/viriatum_commons/thread/thread_pool.c',
  '        /* retrieves the work thread task */\n'
  '        pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 1);\n'
  '\n'
  '        /* unlock the task condition lock */\n'
  '        CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);\n',
  '        /* retrieves the work thread task */\n'
  '        peek_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task);\n'
  '\n'
  '        /* unlock the task condition lock */\n'
  '        CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);\n'
  '\n'
  '        /* removes the task from the queue, the lock is only needed\n'
  '        to find out that there is one */\n'
  '        remove_index_linked_list(thread_pool->task_queue, 0, 1);\n')]
demo=r'''
import common

C = r"""
#include "stdafx.h"
#include "thread/thread_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>


#define TASKS 20000
static struct thread_pool_task_t tasks[TASKS];
static volatile int count = 0;

static THREAD_RETURN run(THREAD_ARGUMENTS a) { __sync_add_and_fetch(&count, 1); return 0; }

int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = __real_pthread_mutex_unlock(m);
    sched_yield();
    return r;
}

int main(void) {
    struct thread_pool_t *pool;
    int i;
    create_thread_pool(&pool, 8, 1, 8);
    for(i = 0; i < TASKS; i++) {
        tasks[i].start_function = run;
        insert_task_thread_pool(pool, &tasks[i]);
    }
    for(i = 0; i < 2000 && count < TASKS; i++) { usleep(10000); }
    usleep(200000);
    return count == TASKS ? 0 : 1;
}

"""


def program(b, *flags):
    os.makedirs(b.path("cfg"), exist_ok=True)
    with open(b.path("cfg/config.h"), "w") as f:
        f.write('#include "%s/_build/src/config.h"\n' % REPO)
    with open(b.path("pool.c"), "w") as f:
        f.write(C)
    base = REPO + "/src/viriatum_commons"
    srcs = [base + "/" + s for s in common._sources(base + "/Makefile.am", "libviriatum_a_SOURCES")]
    subprocess.run(["gcc", "-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + b.path("cfg"), "-I" + base, b.path("pool.c"),
                    "-o", b.path("pool")] + srcs + list(flags) + ["-lpthread", "-ldl", "-lm"], check=True)
    try:
        return subprocess.run([b.path("pool")], cwd=b.dir, stdout=subprocess.DEVNULL, timeout=100).returncode
    except subprocess.TimeoutExpired:
        return "no end"


with Box() as b:
    check(program(b, "-Wl,--wrap=pthread_mutex_unlock") == 0, "every task runs once in a pool of eight threads")
'''
