// Declarations of the part of ImPlot the GUI blocks use (see imgui.h).
#pragma once
#include "imgui.h"
typedef int ImAxis; typedef int ImPlotFlags; typedef int ImPlotAxisFlags; typedef int ImPlotColormap; typedef int ImPlotCond; typedef int ImPlotLineFlags; typedef int ImPlotHeatmapFlags; typedef int ImPlotLocation; typedef int ImPlotLegendFlags; typedef int ImPlotScale;
enum { ImAxis_X1 = 0, ImAxis_X2, ImAxis_X3, ImAxis_Y1, ImAxis_Y2, ImAxis_Y3 };
enum { ImPlotFlags_None = 0, ImPlotFlags_NoLegend = 2, ImPlotFlags_NoTitle = 1 };
enum { ImPlotAxisFlags_None = 0, ImPlotAxisFlags_NoLabel = 1, ImPlotAxisFlags_NoGridLines = 2, ImPlotAxisFlags_NoTickMarks = 4, ImPlotAxisFlags_NoTickLabels = 8, ImPlotAxisFlags_AutoFit = 2048, ImPlotAxisFlags_RangeFit = 4096, ImPlotAxisFlags_LockMin = 16384, ImPlotAxisFlags_LockMax = 32768, ImPlotAxisFlags_Lock = 49152 };
enum { ImPlotColormap_Deep = 0, ImPlotColormap_Dark, ImPlotColormap_Pastel, ImPlotColormap_Paired, ImPlotColormap_Viridis, ImPlotColormap_Plasma, ImPlotColormap_Hot, ImPlotColormap_Cool, ImPlotColormap_Jet };
enum { ImPlotCond_None = 0, ImPlotCond_Always = 1, ImPlotCond_Once = 2 };
struct ImPlotPoint { double x, y; constexpr ImPlotPoint() : x(0), y(0) {} constexpr ImPlotPoint(double a, double b) : x(a), y(b) {} }; struct ImPlotRange { double Min, Max; }; struct ImPlotRect { ImPlotRange X, Y; };
namespace ImPlot {
bool BeginPlot(const char *, const ImVec2 & = ImVec2(-1, 0), ImPlotFlags = 0); void EndPlot(); void SetupAxis(ImAxis, const char * = nullptr, ImPlotAxisFlags = 0); void SetupAxes(const char *, const char *, ImPlotAxisFlags = 0, ImPlotAxisFlags = 0); void SetupAxisLimits(ImAxis, double, double, ImPlotCond = 2); void SetupAxesLimits(double, double, double, double, ImPlotCond = 2); void SetupAxisScale(ImAxis, ImPlotScale); void SetupAxisFormat(ImAxis, const char *); void SetupLegend(ImPlotLocation, ImPlotLegendFlags = 0); void SetupFinish(); void SetNextAxesToFit(); void SetNextAxisLimits(ImAxis, double, double, ImPlotCond = 2);
template <typename T> void PlotLine(const char *, const T *, int, double = 1, double = 0, ImPlotLineFlags = 0, int = 0, int = sizeof(T)); template <typename T> void PlotLine(const char *, const T *, const T *, int, ImPlotLineFlags = 0, int = 0, int = sizeof(T)); template <typename T> void PlotScatter(const char *, const T *, const T *, int, int = 0, int = 0, int = sizeof(T)); template <typename T> void PlotBars(const char *, const T *, int, double = 0.67, double = 0, int = 0, int = 0, int = sizeof(T));
template <typename T> void PlotHeatmap(const char *, const T *, int, int, double = 0, double = 0, const char * = "%.1f", const ImPlotPoint & = ImPlotPoint(0, 0), const ImPlotPoint & = ImPlotPoint(1, 1), ImPlotHeatmapFlags = 0);
void PushColormap(ImPlotColormap); void PushColormap(const char *); void PopColormap(int = 1); void ColormapScale(const char *, double, double, const ImVec2 & = ImVec2()); ImPlotRect GetPlotLimits(ImAxis = -1, ImAxis = -1); bool IsPlotHovered(); ImPlotPoint GetPlotMousePos(ImAxis = -1, ImAxis = -1); void PushStyleVar(int, float); void PopStyleVar(int = 1); void SetNextLineStyle(const ImVec4 &, float = -1);
}
