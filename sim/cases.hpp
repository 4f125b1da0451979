// Reader and writer clients behind one interface, so that the fault, crash and
// isolation scenarios run over every reader and writer of the library.
#pragma once
#include "scenario.hpp"
#include <functional>
#include <memory>
#include <string>

struct IReader {
    virtual bool has() = 0;
    // read the next trace; "" if it is trace number `i`, else what differs
    virtual std::string read(size_t i, bool header_only) = 0;
    // a call that does not move on to another trace; "" if it returned what is stored
    virtual std::string aside(uint32_t) { return ""; }
    // the headers of what a writer that did not get to its end left behind; "" if they are those it was given
    virtual std::string headers(size_t traces_seen) = 0;
    virtual ~IReader() = default;
};
struct ReaderCase {
    std::string bytes, kind;
    size_t n = 0;
    std::function<std::unique_ptr<IReader>(std::string const& path)> open; // checks what opening returned
};

struct IWriter {
    virtual void write(size_t i) = 0;
    virtual ~IWriter() = default;
};
struct WriterCase {
    std::string kind;
    size_t n = 0;
    std::function<std::unique_ptr<IWriter>(std::string const& path)> open;
    std::function<void(std::string const& got, char const* what)> check; // complete file
    size_t header_end = 0; // counts before it may be brought up to date later
    std::function<std::string(size_t k)> prefix;   // the file with the first k traces only; "" if not meaningful
    std::function<ReaderCase()> reader;
};

ReaderCase segy_reader_case(Choices& ch, bool small);
WriterCase segy_writer_case(Choices& ch, bool small, int min_tr, int max_tr);
ReaderCase segd_reader_case(Choices& ch, bool small);
WriterCase segd_writer_case(Choices& ch, bool small, int min_tr, int max_tr);
ReaderCase any_reader(Choices& ch, bool small);
WriterCase any_writer(Choices& ch, bool small, int min_tr, int max_tr);

struct SegyFile;
std::string sort_key(Choices& ch, SegyFile& f);
std::vector<size_t> sorted_order(SegyFile const& f, std::string const& key);
