// Private copies of the program code, one per simulated process.
#pragma once
#include "core.h"
struct PyApi;
struct Image { void *h = nullptr, *pyh = nullptr; bool ctl = false, used = false; std::vector<std::pair<char *, size_t>> wsegs; int (*remote_main)() = nullptr; void *(*pyinit)() = nullptr; PyApi *py = nullptr; };
extern std::vector<Image> images;
bool load_images(const std::string &dir, int nctl, int nrem);
int take_image(bool ctl);
void *controller_main(void *proc);   // thread body: runs the scenario's Python script
void *remote_main(void *proc);
