#pragma once
#include <string>
bool symx_fs_create(const std::string& path);                       // may fail
bool symx_fs_read(const std::string& path, std::string& data);
void symx_fs_commit(const std::string& path, const std::string& data);
bool symx_fs_full();
