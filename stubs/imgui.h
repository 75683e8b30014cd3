// Declarations of the part of Dear ImGui the GUI blocks use (and close relatives), so that they can be compiled for
// analysis.  No definitions: the analyser treats these as unknown calls.
#pragma once
#include <cstddef>
#include <cstdint>
typedef unsigned int ImU32; typedef unsigned int ImGuiID; typedef int ImGuiCond; typedef int ImGuiWindowFlags; typedef int ImGuiMouseButton; typedef int ImGuiSliderFlags; typedef int ImGuiCol; typedef int ImDrawFlags; typedef int ImGuiInputTextFlags; typedef int ImGuiTreeNodeFlags; typedef int ImGuiTableFlags; typedef int ImGuiStyleVar; typedef int ImGuiHoveredFlags; typedef int ImGuiKey;
struct ImVec2 { float x, y; constexpr ImVec2() : x(0), y(0) {} constexpr ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x, y, z, w; constexpr ImVec4() : x(0), y(0), z(0), w(0) {} constexpr ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
enum { ImGuiCond_None = 0, ImGuiCond_Always = 1, ImGuiCond_Once = 2, ImGuiCond_FirstUseEver = 4, ImGuiCond_Appearing = 8 };
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_NoTitleBar = 1, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoScrollbar = 8, ImGuiWindowFlags_NoCollapse = 32, ImGuiWindowFlags_AlwaysAutoResize = 64 };
enum { ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1, ImGuiMouseButton_Middle = 2 };
enum { ImGuiCol_Text = 0, ImGuiCol_Button = 21 };
#define IM_COL32(R, G, B, A) (((ImU32)(A) << 24) | ((ImU32)(B) << 16) | ((ImU32)(G) << 8) | ((ImU32)(R)))
struct ImDrawList {
  void AddLine(const ImVec2 &, const ImVec2 &, ImU32, float = 1.0f); void AddRect(const ImVec2 &, const ImVec2 &, ImU32, float = 0, ImDrawFlags = 0, float = 1.0f); void AddRectFilled(const ImVec2 &, const ImVec2 &, ImU32, float = 0, ImDrawFlags = 0);
  void AddTriangle(const ImVec2 &, const ImVec2 &, const ImVec2 &, ImU32, float = 1.0f); void AddTriangleFilled(const ImVec2 &, const ImVec2 &, const ImVec2 &, ImU32); void AddCircle(const ImVec2 &, float, ImU32, int = 0, float = 1.0f); void AddCircleFilled(const ImVec2 &, float, ImU32, int = 0);
  void AddText(const ImVec2 &, ImU32, const char *, const char * = nullptr); void AddPolyline(const ImVec2 *, int, ImU32, ImDrawFlags, float); void PushClipRect(const ImVec2 &, const ImVec2 &, bool = false); void PopClipRect(); };
struct ImGuiIO { ImVec2 DisplaySize, MousePos, MouseDelta; float DeltaTime, Framerate, MouseWheel, MouseWheelH; bool MouseDown[5], WantCaptureMouse, WantCaptureKeyboard, KeyCtrl, KeyShift; int ConfigFlags; const char *IniFilename; };
struct ImGuiStyle { float Alpha; ImVec2 WindowPadding; };
namespace ImGui {
bool Begin(const char *, bool * = nullptr, ImGuiWindowFlags = 0); void End(); bool BeginChild(const char *, const ImVec2 & = ImVec2(), int = 0, ImGuiWindowFlags = 0); void EndChild();
void SetNextWindowSize(const ImVec2 &, ImGuiCond = 0); void SetNextWindowPos(const ImVec2 &, ImGuiCond = 0, const ImVec2 & = ImVec2()); void SetNextItemWidth(float); void SameLine(float = 0, float = -1); void Separator(); void Spacing(); void NewLine();
void Text(const char *, ...); void TextUnformatted(const char *, const char * = nullptr); void TextColored(const ImVec4 &, const char *, ...); void TextDisabled(const char *, ...); void TextWrapped(const char *, ...); void LabelText(const char *, const char *, ...); void BulletText(const char *, ...); void SetTooltip(const char *, ...);
bool Button(const char *, const ImVec2 & = ImVec2()); bool SmallButton(const char *); bool Checkbox(const char *, bool *); bool RadioButton(const char *, bool); bool RadioButton(const char *, int *, int);
bool SliderFloat(const char *, float *, float, float, const char * = "%.3f", ImGuiSliderFlags = 0); bool SliderInt(const char *, int *, int, int, const char * = "%d", ImGuiSliderFlags = 0); bool DragFloat(const char *, float *, float = 1, float = 0, float = 0, const char * = "%.3f", ImGuiSliderFlags = 0); bool InputFloat(const char *, float *, float = 0, float = 0, const char * = "%.3f", ImGuiInputTextFlags = 0); bool InputInt(const char *, int *, int = 1, int = 100, ImGuiInputTextFlags = 0); bool Combo(const char *, int *, const char *const[], int, int = -1);
bool IsItemHovered(ImGuiHoveredFlags = 0); bool IsItemActive(); bool IsItemClicked(ImGuiMouseButton = 0); bool IsWindowHovered(ImGuiHoveredFlags = 0); bool IsWindowFocused(int = 0); bool IsMouseDragging(ImGuiMouseButton, float = -1); bool IsMouseDown(ImGuiMouseButton); bool IsMouseClicked(ImGuiMouseButton, bool = false); ImVec2 GetMouseDragDelta(ImGuiMouseButton = 0, float = -1); void ResetMouseDragDelta(ImGuiMouseButton = 0); ImVec2 GetMousePos();
ImVec2 GetCursorScreenPos(); void SetCursorScreenPos(const ImVec2 &); ImVec2 GetCursorPos(); void SetCursorPos(const ImVec2 &); ImVec2 GetContentRegionAvail(); ImVec2 GetWindowPos(); ImVec2 GetWindowSize(); float GetWindowWidth(); float GetWindowHeight(); ImDrawList *GetWindowDrawList(); ImDrawList *GetForegroundDrawList(); ImDrawList *GetBackgroundDrawList(); ImGuiIO &GetIO(); ImGuiStyle &GetStyle();
ImU32 GetColorU32(ImGuiCol, float = 1); ImU32 GetColorU32(const ImVec4 &); ImU32 GetColorU32(ImU32); ImVec2 CalcTextSize(const char *, const char * = nullptr, bool = false, float = -1); void PushStyleColor(ImGuiCol, const ImVec4 &); void PopStyleColor(int = 1); void PushID(const char *); void PushID(int); void PushID(const void *); void PopID(); void BeginGroup(); void EndGroup(); double GetTime(); void Dummy(const ImVec2 &); bool InvisibleButton(const char *, const ImVec2 &, int = 0);
void PlotLines(const char *, const float *, int, int = 0, const char * = nullptr, float = 0, float = 0, ImVec2 = ImVec2(), int = sizeof(float)); bool CollapsingHeader(const char *, ImGuiTreeNodeFlags = 0); bool TreeNode(const char *); void TreePop(); void BeginDisabled(bool = true); void EndDisabled();
bool BeginTable(const char *, int, ImGuiTableFlags = 0, const ImVec2 & = ImVec2(), float = 0); void EndTable(); void TableNextRow(int = 0, float = 0); bool TableNextColumn(); void TableSetupColumn(const char *, int = 0, float = 0, ImGuiID = 0); void TableHeadersRow();
}
