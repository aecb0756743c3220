#ifndef PROJECT_VERSION_HPP_
#define PROJECT_VERSION_HPP_
//! \file
namespace brille::version{
    //! `project` git repository revision information at build time
    auto constexpr git_revision = u8"f87d66bdfa2e1f9093aa361b0071b264f9ff3232";
    //! `project` git repository branch at build time
    auto constexpr git_branch = u8"main";
    //! build date and time in YYYY-MM-DDThh:mm format
    auto constexpr build_datetime = u8"2026-11-12T05:29";
    //! `project` version
    auto constexpr version_number = u8"0.1.dev1+gf87d66bdf";
    //! hostname of the build machine
    auto constexpr build_hostname = u8"vm";
    //! version with metadata included
    auto constexpr meta_version = u8"0.1.dev1+gf87d66bdf";
}
#endif
