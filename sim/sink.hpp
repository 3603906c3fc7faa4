// The simulated output side: blocks of scheduler-chosen sizes handed to a Serializer through its
// request-buffer callback, each a separate heap block of exactly its size, pre-filled so that bytes
// written outside the reported range are seen.  The sink may run out of space.
#pragma once
#include "core.hpp"
#include "js.hpp"
namespace sim
{
struct Sink
{
  struct Block
  {
    char *mem;
    size_t size;
  };
  Src *c;
  std::vector<Block> blocks;
  size_t limit = size_t(-1); // bytes the device can hold
  size_t held = 0;
  uint32_t cls = 0;
  uint64_t requests = 0, refused = 0;
  std::function<void()> on_request;
  JS::Serializer *ser = nullptr;
  static constexpr unsigned char Fill = 0xA5;

  explicit Sink(Src &src)
    : c(&src)
  {
    cls = src.below(6);
  }
  Sink(const Sink &) = delete;
  Sink &operator=(const Sink &) = delete;
  ~Sink()
  {
    for (auto &b : blocks)
      free(b.mem);
  }
  size_t next_size()
  {
    switch (cls)
    {
    case 0:
      return 1 << 16;
    case 1:
      return 1;
    case 2:
      return c->range(1, 3);
    case 3:
      return c->range(1, 12);
    case 4:
      return c->range(4, 70);
    default:
      return c->pick({1u, 2u, 3u, 5u, 7u, 8u, 16u, 31u, 64u, 100u, 255u, 256u, 1000u});
    }
  }
  bool give(JS::Serializer &s)
  {
    size_t n = next_size();
    if (held >= limit)
      return false;
    if (n > limit - held)
      n = limit - held;
    Block b;
    b.size = n;
    b.mem = static_cast<char *>(malloc(n));
    memset(b.mem, Fill, n);
    blocks.push_back(b);
    held += n;
    ev("out-block", n);
    s.setBuffer(b.mem, n);
    return true;
  }
  void request(JS::Serializer &s)
  {
    Outside outside;
    requests++;
    if (on_request)
      on_request();
    if (blocks.size() > 4000000 || requests > 8000000)
      violate("no-progress", "the serializer asked for output buffers without end");
    if (!give(s))
    {
      refused++;
      ev("out-full");
      fault("output_full");
    }
  }
  void attach(JS::Serializer &s, bool first)
  {
    ser = &s;
    if (first)
      give(s);
    s.setRequestBufferCallback([this](JS::Serializer &q) { request(q); });
  }
  // bytes stored so far; every block but the current one is full
  std::string contents()
  {
    std::string o;
    const JS::SerializerBuffer &cur = ser->currentBuffer();
    for (size_t i = 0; i < blocks.size(); i++)
    {
      Block &b = blocks[i];
      if (i + 1 < blocks.size() || cur.buffer != b.mem)
      {
        o.append(b.mem, b.size);
        continue;
      }
      if (cur.size != b.size || cur.used > cur.size)
        violate("buffer-range", "the serializer reports %zu of %zu bytes used of a block of %zu bytes", cur.used,
                cur.size, b.size);
      for (size_t k = cur.used; k < b.size; k++)
        if ((unsigned char)b.mem[k] != Fill)
          violate("written-outside", "byte %zu of a block was written although only %zu are reported used", k, cur.used);
      o.append(b.mem, cur.used);
    }
    if (blocks.size() > 1)
    {
      nontrivial();
      counter("fault.output_boundaries") += blocks.size() - 1;
    }
    return o;
  }
};
} // namespace sim
