// Instances of the pipeline stages under contract, with callables the verifier knows nothing about.
#include "cocpp/cocpp.h"
#include "cocpp/pipeline/co_pipeline.h"
#include "off.h"
using namespace cocpp;

struct user_map
{
    long operator()(long) const;
};
struct user_filter
{
    bool operator()(long) const;
};
struct user_reduce
{
    long operator()(long, long) const;
};
struct user_group
{
    long operator()(const std::vector<long> &) const;
};
struct user_source
{
    std::optional<long> operator()();
};
// walks over a sequence the verifier knows nothing about
struct user_iter
{
    long at;
    long operator*() const;
    user_iter &operator++();
    bool operator!=(const user_iter &) const;
};

using pipe_t = co_pipeline<long>;
SIZE(pipe, pipe_t)
OFF(pipe_chan, pipe_t, channel__)
SIZE(pchan, co_chan<long>)
SIZE(pany, co_any)

extern "C"
{
    void vf_pipe_map(pipe_t *p, user_map *f)
    {
        auto q = *p | *f;
    }
    void vf_pipe_filter(pipe_t *p, user_filter *f)
    {
        auto q = *p | pipeline::filter(*f);
    }
    void vf_pipe_reduce(pipe_t *p, user_reduce *f, long init)
    {
        auto q = *p | pipeline::reduce(*f, init);
    }
    void vf_pipe_take(pipe_t *p, size_t n)
    {
        auto q = *p | pipeline::take(n);
    }
    void vf_pipe_skip(pipe_t *p, size_t n)
    {
        auto q = *p | pipeline::skip(n);
    }
    void vf_pipe_group(pipe_t *p, user_group *f, size_t n)
    {
        auto q = *p | pipeline::group(n, *f);
    }
    void vf_pipe_source(user_source *f, int max)
    {
        pipe_t q(*f, max);
    }
    void vf_pipe_range(user_iter *a, user_iter *b, int max)
    {
        pipe_t q(*a, *b, max);
    }
    void vf_pipe_count(const long *a, const long *b, const long *inc, int max)
    {
        pipe_t q(*a, *b, *inc, max);
    }
    void vf_pipe_list(const std::vector<long> *v, int max)
    {
        pipe_t q(*v, max);
    }
    void vf_pipe_init(const std::initializer_list<long> *v, int max)
    {
        pipe_t q(*v, max);
    }
}
