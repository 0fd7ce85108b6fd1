export const defineNuxtModule = (definition) => definition;
export const useNuxt = () => { throw new Error("no nuxt instance"); };
