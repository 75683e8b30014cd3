// Declarations of the FreeRTOS calls task policies use; their meaning is given in tool/rtos.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef struct tskTaskControlBlock *TaskHandle_t; typedef struct QueueDefinition *SemaphoreHandle_t; typedef SemaphoreHandle_t QueueHandle_t;
typedef uint32_t TickType_t; typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef uint16_t configSTACK_DEPTH_TYPE; typedef uint8_t StackType_t;
#define pdPASS 1
#define pdTRUE 1
#define pdFAIL 0
#define pdFALSE 0
#define portMAX_DELAY 0xFFFFFFFFu
#define tskIDLE_PRIORITY 0
#define configTICK_RATE_HZ 1000
#define configMINIMAL_STACK_SIZE 128
#define pdMS_TO_TICKS(ms) ((TickType_t)(ms))
#define portTICK_PERIOD_MS 1
BaseType_t xTaskCreate(void (*)(void *), const char *, const configSTACK_DEPTH_TYPE, void *, UBaseType_t, TaskHandle_t *);
void vTaskDelete(TaskHandle_t); void vTaskDelay(const TickType_t); void verif_rtos_yield(); TickType_t xTaskGetTickCount(); void vTaskStartScheduler(); TaskHandle_t xTaskGetCurrentTaskHandle();
#define taskYIELD() verif_rtos_yield()
SemaphoreHandle_t xSemaphoreCreateBinary(); SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t, UBaseType_t); void vSemaphoreDelete(SemaphoreHandle_t); BaseType_t xSemaphoreTake(SemaphoreHandle_t, TickType_t); BaseType_t xSemaphoreGive(SemaphoreHandle_t);
void *pvPortMalloc(size_t); void vPortFree(void *);
}
