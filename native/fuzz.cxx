// Coverage-guided fuzzing of everything that parses text: the first byte selects what is called.
#define main k8pshMain
#include "k8psh.cxx"
#undef main

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size)
{
	typedef k8psh::Utilities U;
	if (size < 1) return 0;
	const std::string s(reinterpret_cast<const char *>(data) + 1, size - 1);
	const std::size_t split = s.find('\n');
	const std::string a = s.substr(0, split), b = split == std::string::npos ? std::string() : s.substr(split + 1);

	try
	{
		switch (data[0] % 8)
		{
		default:
			{
				const auto c = k8psh::Configuration::load(s, data[0] & 8 ? "/work" : "");
				for (auto &e : c.getCommands()) (void)c.getCommands(e.second.getHost().getHostname());
				break;
			}
		case 4:
			{
				std::unordered_map<std::string, k8psh::OptionalString> overrides;
				overrides[b.substr(0, b.size() / 2)] = k8psh::OptionalString(b);
				overrides["A"] = k8psh::OptionalString();
				(void)U::substituteEnvironmentVariables(a, overrides);
				break;
			}
		case 5:
			(void)U::normalizePath(s);
			if (!s.empty()) { (void)U::isAbsolutePath(s); }
			(void)U::getBasename(s);
			(void)U::getParentDirectory(s);
			break;
		case 6: (void)U::relativizePath(U::normalizePath(a), b); break;
		case 7:
			setenv("K8PSH_DEBUG", a.c_str(), 1);
			(void)k8psh::Logger::shouldLogDebug(b.c_str());
			unsetenv("K8PSH_DEBUG");
			break;
		}
	}
	catch (const std::exception &) { }

	return 0;
}
