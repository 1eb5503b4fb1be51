#pragma once
// stand-in for the header CMake generates from source/version.h.in
#define GIRGS_PROJECT_NAME "girgs"
#define GIRGS_PROJECT_DESCRIPTION "Generator for Geometric Inhomogeneous Random Graphs"
#define GIRGS_AUTHOR_ORGANIZATION "org"
#define GIRGS_AUTHOR_DOMAIN "domain"
#define GIRGS_AUTHOR_MAINTAINER "maintainer"
#define GIRGS_VERSION_MAJOR "1"
#define GIRGS_VERSION_MINOR "0"
#define GIRGS_VERSION_PATCH "2"
#define GIRGS_VERSION_REVISION "verif"
#define GIRGS_VERSION "1.0.2"
#define GIRGS_NAME_VERSION "girgs v1.0.2 (verif)"
