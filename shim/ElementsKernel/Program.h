// Stand-in for Elements' Program and its manager: options from the command line, then from --config-file.
#pragma once
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
namespace Elements {
class Program {
public:
  using OptionsDescription = boost::program_options::options_description;
  using PositionalOptionsDescription = boost::program_options::positional_options_description;
  virtual ~Program() = default;
  virtual OptionsDescription defineSpecificProgramOptions() { return OptionsDescription(); }
  virtual std::pair<OptionsDescription, PositionalOptionsDescription> defineProgramArguments() { return {defineSpecificProgramOptions(), PositionalOptionsDescription()}; }
  virtual ExitCode mainMethod(std::map<std::string, boost::program_options::variable_value>& args) = 0;
};
class ProgramManager {
public:
  explicit ProgramManager(std::unique_ptr<Program> p) : m_program(std::move(p)) {}
  static void onTerminate() noexcept { std::cerr << "terminated by an unhandled exception" << std::endl; std::abort(); }
  ExitCode run(int argc, char** argv) {
    namespace po = boost::program_options;
    try {
      auto args = m_program->defineProgramArguments();
      po::options_description all;
      all.add_options()("version", "")("help", "")("config-file", po::value<boost::filesystem::path>()->default_value(boost::filesystem::path()), "")("log-level", po::value<std::string>()->default_value("INFO"), "")("log-file", po::value<boost::filesystem::path>(), "");
      all.add(args.first);
      po::variables_map vm;
      po::store(po::command_line_parser(argc, argv).options(all).positional(args.second).run(), vm);
      auto file = vm["config-file"].as<boost::filesystem::path>();
      if (!file.empty() && boost::filesystem::exists(file)) { std::ifstream in(file.string()); po::store(po::parse_config_file(in, all), vm); }
      po::notify(vm);
      std::map<std::string, po::variable_value> m(vm.begin(), vm.end());
      return m_program->mainMethod(m);
    } catch (const Exception& e) { std::cerr << "FATAL " << e.what() << std::endl; return e.exitCode(); }
    catch (const std::exception& e) { std::cerr << "FATAL " << e.what() << std::endl; return ExitCode::NOT_OK; }
  }
private:
  std::unique_ptr<Program> m_program;
};
}
