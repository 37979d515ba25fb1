// Empty stand-in: the sources under test include OpenCV but use none of it.
#ifndef SHIM_OPENCV_HPP
#define SHIM_OPENCV_HPP
#endif
