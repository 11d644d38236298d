prop='H26'
needs='a task inserted while another one is still in the queue and threads are idle'
breaks='the second task waits for the first although threads are idle'
edits=[('src/viriatum_commons/thread/thread_pool.c',
  '    /* signals the task condition */\n    CONDITION_SIGNAL(thread_pool->task_condition);\n',
  '    /* signals the task condition, in case there were already\n'
  '    tasks in the queue it has been signaled for them */\n'
  '    if(thread_pool->task_queue->size == 1) {\n'
  '        CONDITION_SIGNAL(thread_pool->task_condition);\n'
  '    }\n')]
demo=r'''
import common

C = r"""
#include "stdafx.h"
#include "thread/thread_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>


static volatile int go = 0, entered = 0;
static struct thread_pool_t *pool;

/* the first ends only once the second has run */
static THREAD_RETURN first(THREAD_ARGUMENTS a) { while(!go) { usleep(1000); } return 0; }
static THREAD_RETURN second(THREAD_ARGUMENTS a) { go = 1; return 0; }

int main(void) {
    struct thread_pool_task_t one, two;
    int i, round;
    memset(&one, 0, sizeof(one));
    memset(&two, 0, sizeof(two));
    one.start_function = first;
    two.start_function = second;
    create_thread_pool(&pool, 4, 1, 4);
    for(round = 0; round < 200; round++) {
        usleep(2000);
        go = 0;
        insert_task_thread_pool(pool, &one);
        insert_task_thread_pool(pool, &two);
        for(i = 0; i < 5000 && !go; i++) { usleep(1000); }
        if(!go) { return 1; }
    }
    return 0;
}

"""


def program(b, *flags):
    os.makedirs(b.path("cfg"), exist_ok=True)
    with open(b.path("cfg/config.h"), "w") as f:
        f.write('#include "%s/_build/src/config.h"\n' % REPO)
    with open(b.path("pool.c"), "w") as f:
        f.write(C)
    base = REPO + "/src/viriatum_commons"
    srcs = [base + "/" + s for s in common._sources(base + "/Makefile.am", "libviriatum_a_SOURCES")]
    subprocess.run(["gcc", "-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + b.path("cfg"), "-I" + base, b.path("pool.c"),
                    "-o", b.path("pool")] + srcs + list(flags) + ["-lpthread", "-ldl", "-lm"], check=True)
    try:
        return subprocess.run([b.path("pool")], cwd=b.dir, stdout=subprocess.DEVNULL, timeout=100).returncode
    except subprocess.TimeoutExpired:
        return "no end"


with Box() as b:
    check(program(b) == 0, "a task runs while threads are idle")
'''
