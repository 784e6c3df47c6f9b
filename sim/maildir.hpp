// The simulated mail directory and its clients.
#pragma once
#include "app.hpp"
namespace sim {
struct MMsg { std::string tok, data; std::vector<std::string> parts; };
struct DM { std::string file, where, data; int flags = 0; };
struct MView { size_t num = 0, size = 0; std::string uid, data, err; int flags = 0; bool ok = false; };
struct MdWorld {
	bool courier = false; std::string root = "/home/user/Mail"; size_t maxlen = 3000;
	std::map<std::string, std::string> known; std::map<std::string, MMsg> all;   // content -> token, token -> message
	std::string dir(const std::string& name) const;
	void mkfolder(const std::string& name) const;
	static std::string flagstr(int f); static int flags_of(const std::string& file);
	MMsg gen(size_t maxlen);
	std::string file_name();
	std::string deliver(const std::string& name, const MMsg& m, bool cur, int flags);   // by some other program; returns the file
	std::vector<DM> disk(const std::string& name) const;
	std::string tok_of(const std::string& data) const;
	std::string what_is(const std::string& data) const;
	std::map<std::string, int> disk_tokens(const std::string& name, const char* when) const;   // every file must be a complete message
};
extern MdWorld* g_md;
vn::folder::path md_path(const std::string& name);
struct MdCl { shared_ptr<vn::session> sess; shared_ptr<vn::store> st; void make(); Out connect(); shared_ptr<vn::folder> folder(const std::string& name); };
Out read_all(shared_ptr<vn::folder> f, std::vector<MView>& v);
}
