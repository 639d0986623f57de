// What goes to standard error, which is where the library logs.
#pragma once
#include <cstdio>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

struct Capture {
    int fd, saved;
    off_t read_ = 0;
    Capture()
    {
        fflush(stderr);
        fd = memfd_create("log", 0);
        saved = dup(2);
        if (fd < 0 || saved < 0 || dup2(fd, 2) < 0)
            _exit(3);
    }
    ~Capture()
    {
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
        close(fd);
    }
    // What was written since the last time
    std::string take()
    {
        fflush(stderr);
        std::string s;
        const off_t end = lseek(fd, 0, SEEK_END);
        s.resize(end - read_);
        if (!s.empty() && pread(fd, &s[0], s.size(), read_) != (ssize_t)s.size())
            _exit(3);
        read_ = end;
        if (read_ > (1 << 22)) {
            if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET))
                _exit(3);
            read_ = 0;
        }
        return s;
    }
};
