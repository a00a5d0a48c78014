// Stands in for the task queue (linked with --wrap=parallel_for): every batch gets a thread
// of its own, so that nothing but the loop's own beginning and end orders two batches and
// ThreadSanitizer sees every pair of accesses which the real queue could run at once.
#include <stddef.h>
#include <stdint.h>
#include <par/parfor.hpp>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>

namespace {
    struct Batch { fu::parfor_Task task; pthread_t thread; };
    unsigned long loops, batches, visits;

    void* run(void* p)
    {
        Batch* b = (Batch*) p;
        b->task.run(&b->task);
        return nullptr;
    }

    struct Report
    {
        ~Report()
        {
            if (const char* f = getenv("PAR_REPORT"))
                if (FILE* o = fopen(f, "w"))
                    fprintf(o, "%lu %lu %lu\n", loops, batches, visits), fclose(o);
        }
    }
    report;
}

extern "C" void __wrap_parallel_for(size_t size, size_t, void (*fn)(fu::Task*), fu::PendingBatchCount*& control)
{
    if (!size)
        return;

    size_t want = 4;
    if (const char* w = getenv("PAR_THREADS"))
        want = (size_t) atoi(w);

    const size_t n = size < want ? size : want;
    Batch* bs = (Batch*) calloc(n, sizeof(Batch));
    for (size_t i = 0; i < n; i++)
    {
        bs[i].task.run = fn;
        bs[i].task.control = &control;
        bs[i].task.start = size * i / n;
        bs[i].task.end = size * (i + 1) / n;
        if (pthread_create(&bs[i].thread, nullptr, run, &bs[i]))
            abort();
    }
    for (size_t i = 0; i < n; i++)
        pthread_join(bs[i].thread, nullptr);

    free(bs);
    __atomic_add_fetch(&loops, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&batches, n, __ATOMIC_RELAXED);
    __atomic_add_fetch(&visits, size, __ATOMIC_RELAXED);
}
