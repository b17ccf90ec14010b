// Stand-in for the parts of the Vulkan headers that the rendering sample's resource bookkeeping mentions.  Nothing here
// reaches a driver: the destruction calls are defined by the harness, which records them.
#pragma once
#include <cstdint>
#define VP_HANDLE(name) typedef struct name##_T* name
VP_HANDLE(VkInstance);
VP_HANDLE(VkDevice);
VP_HANDLE(VkPhysicalDevice);
VP_HANDLE(VkQueue);
VP_HANDLE(VkCommandBuffer);
VP_HANDLE(VkCommandPool);
VP_HANDLE(VkFence);
VP_HANDLE(VkSemaphore);
VP_HANDLE(VkEvent);
VP_HANDLE(VkDebugUtilsMessengerEXT);
VP_HANDLE(VkDescriptorPool);
VP_HANDLE(VkDescriptorSet);
VP_HANDLE(VkDescriptorSetLayout);
VP_HANDLE(VkRenderPass);
VP_HANDLE(VkFramebuffer);
VP_HANDLE(VkSwapchainKHR);
VP_HANDLE(VkSurfaceKHR);
VP_HANDLE(VkImage);
VP_HANDLE(VkImageView);
VP_HANDLE(VkBuffer);
VP_HANDLE(VkBufferView);
VP_HANDLE(VkDeviceMemory);
VP_HANDLE(VkSampler);
VP_HANDLE(VkPipeline);
VP_HANDLE(VkPipelineLayout);
VP_HANDLE(VkPipelineCache);
VP_HANDLE(VkShaderModule);
#undef VP_HANDLE
#define VK_NULL_HANDLE nullptr
typedef uint32_t VkFlags;
typedef uint32_t VkBool32;
typedef uint64_t VkDeviceSize;
struct VkAllocationCallbacks;
struct VkPhysicalDeviceLimits
{
    uint32_t maxImageDimension2D;
};
enum VkResult
{
    VK_SUCCESS = 0
};
extern "C" {
void vkDestroySwapchainKHR(VkDevice, VkSwapchainKHR, const VkAllocationCallbacks*);
void vkDestroyImageView(VkDevice, VkImageView, const VkAllocationCallbacks*);
}
