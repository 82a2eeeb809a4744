// Pieces of work with the library that condense everything they deliver.
#pragma once
#include "formats.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>

struct Job {
    std::string desc;
    std::function<Bytes()> run;
    bool localTime = false; // its times are those of the time zone (zip)
};
struct JobFile {
    std::string path;
    ~JobFile() { unlink(path.c_str()); }
};
Job genJob(pbt::Choices& c, std::vector<std::shared_ptr<JobFile> >& files, int maxEntries = 4);
