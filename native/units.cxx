// Makes the public functions of the sources callable over a pipe: requests and responses are lists of length-prefixed strings.
#define main k8pshMain
#include "k8psh.cxx"
#undef main

#include <cstring>

typedef std::vector<std::string> Strings;

static bool readAll(void *data, std::size_t n)
{
	char *p = static_cast<char *>(data);
	while (n) { ssize_t r = ::read(0, p, n); if (r <= 0) return false; p += r; n -= std::size_t(r); }
	return true;
}

static bool receive(Strings &in)
{
	std::uint32_t count, length;
	in.clear();
	if (!readAll(&count, 4)) return false;
	for (; count; count--)
	{
		if (!readAll(&length, 4)) return false;
		std::string s(length, '\0');
		if (length && !readAll(&s[0], length)) return false;
		in.push_back(s);
	}
	return true;
}

static void put(std::string &out, std::uint32_t v) { out.append(reinterpret_cast<const char *>(&v), 4); }

static void serialize(const k8psh::Configuration::Command &c, Strings &out)
{
	out.push_back(c.getName());
	out.push_back(c.getHost().getHostname());
	out.push_back(std::to_string(c.getHost().getPort()));
	out.push_back(std::to_string(c.getHost().getOptions().size()));
	for (auto &o : c.getHost().getOptions()) out.push_back(o);
	out.push_back(std::to_string(c.getEnvironmentVariables().size()));
	for (auto &e : c.getEnvironmentVariables()) { out.push_back(e.first); out.push_back(e.second); }
	out.push_back(std::to_string(c.getExecutable().size()));
	for (auto &e : c.getExecutable()) out.push_back(e);
}

static void handle(const Strings &in, Strings &out)
{
	const std::string &op = in.at(0);
	typedef k8psh::Utilities U;

	if (op == "load") // load config workingPath hostnames...
	{
		const auto c = k8psh::Configuration::load(in.at(1), in.at(2));
		out.push_back(c.getBaseDirectory());
		out.push_back(std::to_string(c.getConnectTimeoutMs()));
		out.push_back(std::to_string(c.getCommands().size()));
		for (auto &e : c.getCommands()) { out.push_back(e.first); serialize(e.second, out); }
		for (std::size_t i = 3; i < in.size(); i++)
		{
			const auto *m = c.getCommands(in[i]);
			out.push_back(m ? std::to_string(m->size()) : std::string("none"));
			if (m) for (auto &e : *m) { out.push_back(e.first); serialize(e.second, out); }
		}
	}
	else if (op == "subst") // subst in (name value|"" exists)...
	{
		std::unordered_map<std::string, k8psh::OptionalString> overrides;
		for (std::size_t i = 2; i + 2 < in.size(); i += 3) overrides[in[i]] = in[i + 2] == "1" ? k8psh::OptionalString(in[i + 1]) : k8psh::OptionalString();
		out.push_back(U::substituteEnvironmentVariables(in.at(1), overrides));
	}
	else if (op == "setenv") out.push_back(U::setEnvironmentVariable(in.at(1), in.at(2)) ? "1" : "0");
	else if (op == "unsetenv") out.push_back(U::setEnvironmentVariable(in.at(1)) ? "1" : "0");
	else if (op == "clearenv") { clearenv(); out.push_back("1"); }
	else if (op == "normalize") out.push_back(U::normalizePath(in.at(1)));
	else if (op == "relativize") out.push_back(U::relativizePath(in.at(1), in.at(2)));
	else if (op == "basename") out.push_back(U::getBasename(in.at(1)));
	else if (op == "parent") out.push_back(U::getParentDirectory(in.at(1)));
	else if (op == "absolute") out.push_back(U::isAbsolutePath(in.at(1)) ? "1" : "0");
	else if (op == "debug") out.push_back(k8psh::Logger::shouldLogDebug(in.at(1).c_str()) ? "1" : "0");
	else throw std::logic_error("bad op");
}

static void single(const Strings &in, Strings &out)
{
	out.assign(1, "ok");
	try { handle(in, out); }
	catch (const std::exception &e) { out.assign(1, "err"); out.push_back(e.what()); }
}

int main()
{
	int reply = dup(1), devNull = ::open("/dev/null", O_WRONLY);
	Strings in, out;

	(void)dup2(devNull, 1);
	(void)dup2(devNull, 2);

	while (receive(in))
	{
		if (in.at(0) == "batch") // batch (count arguments...)...
		{
			out.assign(1, "ok");
			for (std::size_t i = 1; i < in.size(); )
			{
				std::size_t count = std::stoul(in[i++]);
				Strings callOut, call(in.begin() + i, in.begin() + i + count);
				i += count;
				single(call, callOut);
				out.push_back(std::to_string(callOut.size()));
				out.insert(out.end(), callOut.begin(), callOut.end());
			}
		}
		else
			single(in, out);

		std::string response;
		put(response, std::uint32_t(out.size()));
		for (auto &s : out) { put(response, std::uint32_t(s.size())); response += s; }
		for (std::size_t done = 0; done < response.size(); )
		{
			ssize_t n = ::write(reply, response.data() + done, response.size() - done);
			if (n <= 0) return 1;
			done += std::size_t(n);
		}
	}

	_exit(0);
}
